------------------------------- MODULE Marray -------------------------------
(* Mathematical row-major arrays.  An array is [sh |-> shape, d |-> contents  *)
(* in row-major order]; shapes and coordinates are sequences of naturals and  *)
(* coordinates count from 0.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* number of elements spanned by one step along axis i
Stride(sh, i) == Prod(SubSeq(sh, i + 1, Len(sh)))
\* coordinate of the k-th element (k from 0), and its inverse
Coord(sh, k) == [i \in 1..Len(sh) |-> (k \div Stride(sh, i)) % sh[i]]
RECURSIVE OffR(_, _, _)
OffR(sh, c, i) == IF i > Len(sh) THEN 0 ELSE c[i] * Stride(sh, i) + OffR(sh, c, i + 1)
Off(sh, c) == OffR(sh, c, 1)
Inside(sh, c) == \A i \in 1..Len(sh) : c[i] >= 0 /\ c[i] < sh[i]

Build(sh, f(_)) == [sh |-> sh, d |-> [k \in 1..Prod(sh) |-> f(Coord(sh, k - 1))]]
At(a, c) == a.d[Off(a.sh, c) + 1]
Full(sh, v) == [sh |-> sh, d |-> [k \in 1..Prod(sh) |-> v]]
IsArray(a) == Len(a.d) = Prod(a.sh)

Set(a, c, v) == [a EXCEPT !.d[Off(a.sh, c) + 1] = v]

\* num new entries holding v before index pos of axis dim (axes count from 0)
Insert(a, dim, pos, num, v) ==
  LET x == dim + 1
      f(c) == IF c[x] < pos THEN At(a, c)
              ELSE IF c[x] < pos + num THEN v
              ELSE At(a, [c EXCEPT ![x] = @ - num])
  IN Build([a.sh EXCEPT ![x] = @ + num], f)

Erase(a, dim, pos, num) ==
  LET x == dim + 1
      f(c) == IF c[x] < pos THEN At(a, c) ELSE At(a, [c EXCEPT ![x] = @ + num])
  IN Build([a.sh EXCEPT ![x] = @ - num], f)

\* coordinates common to both shapes keep their value, new ones hold v
ResizeTo(a, nsh, v) == LET f(c) == IF Inside(a.sh, c) THEN At(a, c) ELSE v IN Build(nsh, f)
Resize(a, dim, size, v) == ResizeTo(a, [a.sh EXCEPT ![dim + 1] = size], v)

Reshape(a, nsh) == [a EXCEPT !.sh = nsh]

\* sums
Total(a) == SumSeq(a.d)
Drop(s, x) == SubSeq(s, 1, x - 1) \o SubSeq(s, x + 1, Len(s))
Put(s, x, e) == SubSeq(s, 1, x - 1) \o <<e>> \o SubSeq(s, x, Len(s))
SumAxis(a, dim) == LET x == dim + 1
                       f(c) == SumSeq([j \in 1..a.sh[x] |-> At(a, Put(c, x, j - 1))])
                   IN Build(Drop(a.sh, x), f)
SumAxisKeep(a, dim) == [SumAxis(a, dim) EXCEPT !.sh = Put(@, dim + 1, 1)]

\* element-wise operations with trailing-axis broadcasting: missing leading axes and axes of extent 1 stretch
Max2(x, y) == IF x > y THEN x ELSE y
PadTo(sh, n) == [i \in 1..n |-> IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]]
Compatible(s, t) == LET n == Max2(Len(s), Len(t)) IN
  \A i \in 1..n : LET p == PadTo(s, n)[i] q == PadTo(t, n)[i] IN p = q \/ p = 1 \/ q = 1
JoinShape(s, t) == LET n == Max2(Len(s), Len(t)) IN
  [i \in 1..n |-> LET p == PadTo(s, n)[i] q == PadTo(t, n)[i] IN IF p = 1 THEN q ELSE p]
\* the element of a seen at coordinate c of the joint shape
Seen(a, c) == LET n == Len(c) m == Len(a.sh) IN
  At(a, [i \in 1..m |-> IF a.sh[i] = 1 THEN 0 ELSE c[n - m + i]])
Zip(a, b, op(_, _)) == LET f(c) == op(Seen(a, c), Seen(b, c)) IN Build(JoinShape(a.sh, b.sh), f)
Map(a, op(_)) == [a EXCEPT !.d = [k \in DOMAIN a.d |-> op(a.d[k])]]
=============================================================================
