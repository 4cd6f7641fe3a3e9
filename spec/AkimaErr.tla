------------------------------ MODULE AkimaErr ------------------------------
(* How far rounding may take an evaluated Akima spline from its real value. *)
EXTENDS Akima
Eps == "2.3e-16"
\* largest secant slope that enters the slope at node i
Loc5(m, i) == MaxAbs([k \in 1..4 |-> Sec(m, i + k - 3)], 4)
\* a node's slope is exact to rounding when no secant is rounded; otherwise the blend amplifies secant errors
ExactSec(m) == \A i \in -1..(Len(m) + 2) : NEq(NRoundDouble(Sec(m, i)), Sec(m, i))
SlopeErr(s, i) == LET M == Loc5(s.m, i) d == NAbs(NSub(Sec(s.m, i - 1), Sec(s.m, i))) w == NAdd(LSpread(s.m, i), RSpread(s.m, i)) IN
   IF s.exact THEN NMul(NMul(16, Eps), M)
   ELSE LET small == NMul(NMul(16, Eps), M) amp == NMul(small, NDiv(NMul(4, d), w)) IN
        NAdd(small, IF NEq(w, 0) THEN d ELSE NMin(d, amp))
Mk(xs, ys) == LET s == Spline(xs, ys) q == [k |-> "spline", x |-> s.x, y |-> s.y, m |-> s.m, tl |-> s.tl, tr |-> s.tr, exact |-> ExactSec(s.m)] IN q
ErrAt(s, i, x) == LET h == NSub(s.x[i + 1], s.x[i]) t == NAbs(NDiv(NSub(x, s.x[i]), h)) p == NAdd(t, NMul(t, NMul(t, NAdd(1, t))))
                      M == NMax(Loc5(s.m, i), Loc5(s.m, i + 1)) IN
   NAdd(NMul(NMul(32, Eps), NAdd(NAdd(NAbs(s.y[i]), NAbs(s.y[i + 1])), NMul(NMul(M, h), p))),
        NMul(NMul(h, p), NMul(4, NAdd(SlopeErr(s, i), SlopeErr(s, i + 1)))))
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
=============================================================================
