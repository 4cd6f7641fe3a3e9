------------------------------- MODULE Akima -------------------------------
(* Akima splines (Engeln-Muellges et al., chapter 13) over real numbers, nodes numbered from 1. *)
EXTENDS Num, Naturals, Sequences, TLC
Two(a) == NMul(2, a)
Three(a) == NMul(3, a)
Secants(xs, ys) == TLCEval([i \in 1..(Len(xs) - 1) |-> NDiv(NSub(ys[i + 1], ys[i]), NSub(xs[i + 1], xs[i]))])
\* secant slopes, continued by two on either side
Sec(m, i) == LET k == Len(m) IN
   IF i = -1 THEN NSub(Three(m[1]), Two(m[2])) ELSE IF i = 0 THEN NSub(Two(m[1]), m[2])
   ELSE IF i = k + 1 THEN NSub(Two(m[k]), m[k - 1]) ELSE IF i = k + 2 THEN NSub(Three(m[k]), Two(m[k - 1])) ELSE m[i]
LSpread(m, i) == NAbs(NSub(Sec(m, i - 2), Sec(m, i - 1)))
RSpread(m, i) == NAbs(NSub(Sec(m, i), Sec(m, i + 1)))
Corner(m, i) == NEq(NAdd(LSpread(m, i), RSpread(m, i)), 0)
Blend(m, i) == LET L == LSpread(m, i) al == NDiv(L, NAdd(L, RSpread(m, i)))
               IN NAdd(NMul(NSub(1, al), Sec(m, i - 1)), NMul(al, Sec(m, i)))
\* slopes of the spline just left and just right of node i
TLeft(m, i) == IF Corner(m, i) THEN Sec(m, i - 1) ELSE Blend(m, i)
TRight(m, i) == IF Corner(m, i) THEN Sec(m, i) ELSE Blend(m, i)
\* a spline is a record of nodes, values, secants, and one-sided slopes
Spline(xs, ys) == LET m == Secants(xs, ys) IN
   [x |-> xs, y |-> ys, m |-> m, tl |-> TLCEval([i \in 1..Len(xs) |-> TLeft(m, i)]), tr |-> TLCEval([i \in 1..Len(xs) |-> TRight(m, i)])]
\* what the class reports as derivative at node i
NodeDerivs(s) == [i \in 1..Len(s.x) |-> IF i = Len(s.x) THEN s.tl[i] ELSE s.tr[i]]
Derivs(xs, ys) == TLCEval(NodeDerivs(Spline(xs, ys)))
RECURSIVE SegFrom(_, _, _)
SegFrom(xs, x, i) == IF i = 1 \/ NLe(xs[i], x) THEN i ELSE SegFrom(xs, x, i - 1)
Seg(xs, x) == SegFrom(xs, x, Len(xs) - 1)
\* cubic Hermite basis on [0,1]
H(a, t) == IF a = 0 THEN NAdd(NMul(NMul(t, t), NSub(Two(t), 3)), 1) ELSE NMul(NMul(t, t), NSub(3, Two(t)))
G(a, t) == IF a = 0 THEN NMul(t, NMul(NSub(t, 1), NSub(t, 1))) ELSE NMul(NMul(t, t), NSub(t, 1))
SegTerms(s, i, x) == LET h == NSub(s.x[i + 1], s.x[i]) t == NDiv(NSub(x, s.x[i]), h)
   IN <<NMul(H(0, t), s.y[i]), NMul(H(1, t), s.y[i + 1]), NMul(NMul(G(0, t), h), s.tr[i]), NMul(NMul(G(1, t), h), s.tl[i + 1])>>
SVal(s, x) == NSum(SegTerms(s, Seg(s.x, x), x))
\* size of the terms that are added up: the scale of rounding errors
SMag(s, x) == LET i == Seg(s.x, x) q == SegTerms(s, i, x) IN NAdd(NSum([k \in 1..4 |-> NAbs(q[k])]), NAdd(NAbs(s.y[i]), NAbs(s.y[i + 1])))
RECURSIVE MaxAbs(_, _)
MaxAbs(q, i) == IF i = 0 THEN 0 ELSE NMax(NAbs(q[i]), MaxAbs(q, i - 1))
\* conditioning of the blend at node i: how strongly it amplifies an error in the secants
Cond(m, i, scale) == LET w == NAdd(LSpread(m, i), RSpread(m, i)) d == NAbs(NSub(Sec(m, i - 1), Sec(m, i))) IN
   IF NLe(d, NMul("1e-11", scale)) THEN 1 ELSE IF NLe(w, NMul("1e-11", scale)) THEN "1e30" ELSE NAdd(1, NDiv(d, w))
RECURSIVE MaxCond(_, _, _)
MaxCond(m, i, sc) == IF i = 0 THEN 1 ELSE NMax(Cond(m, i, sc), MaxCond(m, i - 1, sc))
WorstCond(xs, ys) == LET m == Secants(xs, ys) IN MaxCond(m, Len(xs), MaxAbs(m, Len(m)))
Increasing(xs) == \A i \in 1..(Len(xs) - 1) : NLt(xs[i], xs[i + 1])
=============================================================================
