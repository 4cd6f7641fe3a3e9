------------------------------ MODULE MC_Akima ------------------------------
(* Checks the spline definition itself: every small data set on several grids. *)
EXTENDS Akima, FiniteSets
CONSTANTS N, Vals
VARIABLES xs, ys
Grids == {[i \in 1..N |-> i], [i \in 1..N |-> IF i > 2 THEN 2 * i ELSE i], [i \in 1..N |-> i * i]}
Init == xs \in Grids /\ ys \in [1..N -> Vals]
Next == UNCHANGED <<xs, ys>>
Near(a, b) == NLt(NAbs(NSub(a, b)), "1e-60")
S == Spline(xs, ys)
Mid(i) == NDiv(NAdd(NAdd(xs[i], xs[i]), xs[i + 1]), 3)
NodesReproduced == LET s == S IN \A i \in 1..N : Near(SVal(s, xs[i]), ys[i])
\* slopes agree from both sides except where two straight runs meet
Smooth == LET s == S IN \A i \in 1..N : Near(s.tl[i], s.tr[i]) \/ Corner(s.m, i)
Line == \A a \in {-1, 0, 2} : LET z == [i \in 1..N |-> a * xs[i] + 3] s == Spline(xs, z) IN
   \A i \in 1..(N - 1) : Near(SVal(s, Mid(i)), NAdd(NMul(a, Mid(i)), 3)) /\ Near(s.tr[i], a)
\* adding a line to the data adds it to the spline
LineShift == LET s == S z == [i \in 1..N |-> ys[i] + 2 * xs[i] - 1] u == Spline(xs, z) IN
   \A i \in 1..(N - 1) : Near(SVal(u, Mid(i)), NAdd(SVal(s, Mid(i)), NSub(NMul(2, Mid(i)), 1)))
\* reading the data backwards gives the same curve
Mirror == LET s == S rx == [i \in 1..N |-> 0 - xs[N + 1 - i]] ry == [i \in 1..N |-> ys[N + 1 - i]] u == Spline(rx, ry) IN
   \A i \in 1..(N - 1) : Near(SVal(u, NNeg(Mid(i))), SVal(s, Mid(i)))
\* a segment depends on at most three nodes on either side
Local == LET s == S IN \A i \in 1..(N - 1) : \A k \in 1..N : (k < i - 2 \/ k > i + 3) =>
   LET u == Spline(xs, [ys EXCEPT ![k] = @ + 1]) IN Near(SVal(u, Mid(i)), SVal(s, Mid(i)))
Scale == LET s == S u == Spline(xs, [i \in 1..N |-> 0 - 3 * ys[i]]) IN \A i \in 1..(N - 1) : Near(SVal(u, Mid(i)), NMul(-3, SVal(s, Mid(i))))
=============================================================================
