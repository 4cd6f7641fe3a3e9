--------------------------- MODULE AdaptiveQuad ---------------------------
(* Adaptive Gander-Gautschi quadrature: a Lobatto rule of 4 points, its Kronrod extension to 7 points and, for the   *)
(* whole interval only, a 13-point extension.  An interval whose 4- and 7-point estimates differ by more than the    *)
(* tolerance is replaced by three parts split at the inner Lobatto points, unless it is too narrow for that, in      *)
(* which case the result is reported to be out of tolerance.  Nodes are doubles, everything else is a real number.   *)
EXTENDS Num, Naturals, Sequences, TLC
\* piecewise polynomials: breaks brk, centre sh, coefficients c[1..Len(brk)+1] (lowest first); right-continuous
RECURSIVE Horner(_, _, _)
Horner(c, t, k) == IF k > Len(c) THEN 0 ELSE NAdd(c[k], NMul(t, Horner(c, t, k + 1)))
RECURSIVE Piece(_, _, _)
Piece(p, x, k) == IF k > Len(p.brk) \/ NLt(x, p.brk[k]) THEN k ELSE Piece(p, x, k + 1)
F(p, x) == Horner(p.c[Piece(p, x, 1)], NSub(x, p.sh), 1)
RECURSIVE Prim(_, _, _)
Prim(c, t, k) == IF k > Len(c) THEN 0 ELSE NMul(t, NAdd(NDiv(c[k], k), Prim(c, t, k + 1)))
\* exact integral for lo <= hi
RECURSIVE ExactFrom(_, _, _, _)
ExactFrom(p, lo, hi, k) == LET stop == IF k > Len(p.brk) THEN hi ELSE NMin(NMax(lo, p.brk[k]), hi) IN
   IF k > Len(p.c) THEN 0 ELSE NAdd(NSub(Prim(p.c[k], NSub(stop, p.sh), 1), Prim(p.c[k], NSub(lo, p.sh), 1)), ExactFrom(p, stop, hi, k + 1))
Exact(p, lo, hi) == ExactFrom(p, lo, hi, 1)

Al == NRoundDouble(NSqrt(NDiv(2, 3)))
Be == NRoundDouble(NSqrt("0.2"))
X1 == NRoundDouble("0.942882415695480")
X2 == NRoundDouble("0.641853342345781")
X3 == NRoundDouble("0.236383199662150")
Absc == TLCEval(<<-1, NNeg(X1), NNeg(Al), NNeg(X2), NNeg(Be), NNeg(X3), 0, X3, Be, X2, Al, X1, 1>>)
RD(a) == NRoundDouble(a)
MidPt(a, b) == RD(NAdd(RD(NSub(a, RD(NDiv(a, 2)))), RD(NDiv(b, 2))))
Half(a, b) == RD(NDiv(RD(NSub(b, a)), 2))
W4 == <<1, 0, 0, 0, 5, 0, 0, 0, 5, 0, 0, 0, 1>>
W7 == <<77, 0, 432, 0, 625, 0, 672, 0, 625, 0, 432, 0, 77>>
W13 == <<"0.0158271919734802", "0.0942738402188500", "0.1550719873365850", "0.1888215739601820", "0.1997734052268590", "0.224926465333340",
         "0.242611071901408", "0.224926465333340", "0.1997734052268590", "0.1888215739601820", "0.1550719873365850", "0.0942738402188500", "0.0158271919734802">>
EpsD == "2.220446049250313e-16"
Split(a, b) == NLt(NMul(NMul(32, EpsD), NMax(NAbs(a), NAbs(b))), NSub(b, a))
\* narrow: so few doubles inside that the position of nodes relative to a break is a matter of rounding
Narrow(a, b) == NLt(NSub(b, a), NMul("1e-9", NMax(NAbs(a), NAbs(b))))
RECURSIVE AnyNear(_, _, _)
AnyNear(p, x, k) == k <= Len(p.brk) /\ (NLt(NAbs(NSub(x, p.brk[k])), NMul("1e-15", NMax(NAbs(x), NAbs(p.brk[k])))) \/ AnyNear(p, x, k + 1))
RECURSIVE MaxA(_, _)
MaxA(q, i) == IF i = 0 THEN 0 ELSE NMax(NAbs(q[i]), MaxA(q, i - 1))
Flat(p) == \A k \in 1..Len(p.c) : Len(p.c[k]) <= 1
\* evaluate the rules on [a,b] with known endpoint values; full: with the 13-point rule
Est(p, a, b, fa, fb, full) ==
   LET mid == MidPt(a, b) hw == Half(a, b)
       x == TLCEval([i \in 1..13 |-> RD(NAdd(mid, RD(NMul(Absc[i], hw))))])
       used(i) == full \/ i % 2 = 1
       y == TLCEval([i \in 1..13 |-> IF i = 1 THEN fa ELSE IF i = 13 THEN fb ELSE IF used(i) THEN F(p, x[i]) ELSE 0])
       v4 == NMul(NDiv(hw, 6), NDot(W4, y)) v7 == NMul(NDiv(hw, 1470), NDot(W7, y))
       size == NMul(NMul(2, hw), MaxA(y, 13))
       \* rounding: of the sums, and of the nodes where the integrand is not flat
       noise == NMul(size, NAdd("1e-14", IF Flat(p) THEN 0 ELSE NMul("4e-15", NDiv(NMax(NAbs(a), NAbs(b)), hw))))
   IN TLCEval([a |-> a, b |-> b, fa |-> fa, fb |-> fb, spa |-> x[5], spb |-> x[9], fspa |-> y[5], fspb |-> y[9], v |-> v7, w |-> v4,
       k13 |-> IF full THEN NMul(hw, NDot(W13, y)) ELSE 0, d |-> NAbs(NSub(v7, v4)), size |-> size, noise |-> noise,
       near |-> \E i \in 2..12 : used(i) /\ AnyNear(p, x[i], 1)])
Parts(p, e) == TLCEval(<<Est(p, e.a, e.spa, e.fa, e.fspa, FALSE), Est(p, e.spa, e.spb, e.fspa, e.fspb, FALSE), Est(p, e.spb, e.b, e.fspb, e.fb, FALSE)>>)
\* the first decision: absolute tolerance, and whether the whole interval is accepted.  amb: rounding may decide
Noise(e) == e.noise
Start(e, tol) ==
   LET e1 == NAbs(NSub(e.v, e.k13)) e2 == NAbs(NSub(e.w, e.k13)) n == NMul(10, Noise(e)) is == NAbs(e.k13)
       zero == NEq(e.size, 0)
       scaled == NLt(0, e1) /\ NLt(e1, e2)
       T == NMul(is, IF scaled THEN NDiv(NMul(tol, e2), e1) ELSE tol)
       T0 == NMul(is, tol)
   IN IF zero THEN [acc |-> TRUE, amb |-> FALSE, T |-> 0, R |-> 1, quiet |-> TRUE]
      ELSE IF NLe(e1, n) \/ NLe(e2, n)   \* an error estimate is rounding noise
      THEN [acc |-> NLt(NAdd(e.d, NMul(3, n)), T0), amb |-> ~NLt(NAdd(e.d, NMul(3, n)), T0), T |-> T0, R |-> 1, quiet |-> TRUE]
      ELSE [acc |-> NLe(e.d, T), amb |-> e.near \/ NLe(NAbs(NSub(e.d, T)), NAdd(NMul("1e-3", T), n)) \/ NLe(is, NMul(100, n)),
            T |-> T, R |-> IF scaled THEN NDiv(e1, e2) ELSE 1, quiet |-> FALSE]
\* what becomes of an interval: accepted within tolerance, stuck (accepted although it is not), or split
Fate(e, T) == IF NLe(e.d, T) THEN "good" ELSE IF Split(e.a, e.b) THEN "split" ELSE "stuck"
\* might rounding in the node positions or values change its fate?
Unsure(e, T) ==
   IF Narrow(e.a, e.b) THEN ~NEq(e.fa, e.fb) /\ NLt(NMul("0.125", e.d), T) /\ NLt(T, NMul(8, e.d))
   ELSE e.near \/ NLe(NAbs(NSub(e.d, T)), NAdd(NMul("1e-3", T), Noise(e)))
\* run: process a list of intervals, adding up the accepted ones
RECURSIVE Run(_, _, _, _)
Run(p, T, list, a) ==
   IF list = <<>> \/ a.n > 600 THEN [a EXCEPT !.amb = @ \/ a.n > 600]
   ELSE LET e == Head(list) fate == Fate(e, T) IN
        IF fate = "split" THEN Run(p, T, Parts(p, e) \o Tail(list), [a EXCEPT !.n = @ + 1, !.amb = @ \/ Unsure(e, T)])
        ELSE Run(p, T, Tail(list), [a EXCEPT !.n = @ + 1, !.amb = @ \/ Unsure(e, T), !.val = NAdd(@, e.v), !.unc2 = NAdd(@, NMul(e.d, e.d)),
                   !.stuck = @ \/ fate = "stuck", !.size = NAdd(@, e.size), !.noise = NAdd(@, e.noise), !.loose = IF Narrow(e.a, e.b) THEN NAdd(@, NMul(8, e.size)) ELSE @])
\* whole integration for lo < hi: value, uncertainty, flag; amb: only rounding decides; sure: but the first decision is certain; loose: rounding allowed in narrow parts
Integrate(p, lo, hi, fl, fh, tol) ==
   LET e == Est(p, lo, hi, fl, fh, TRUE) s == Start(e, tol) IN
   IF s.acc \/ s.amb THEN [val |-> e.k13, unc |-> NAbs(NSub(e.v, e.k13)), stuck |-> FALSE, amb |-> s.amb, size |-> e.size, loose |-> 0, noise |-> e.noise, T |-> 0, R |-> 1, sure |-> FALSE]
   ELSE LET r == Run(p, s.T, Parts(p, e), [n |-> 0, val |-> 0, unc2 |-> 0, stuck |-> FALSE, amb |-> FALSE, size |-> 0, noise |-> 0, loose |-> 0]) IN
        [val |-> r.val, unc |-> NMul(NSqrt(r.unc2), s.R), stuck |-> r.stuck, amb |-> r.amb, size |-> NAdd(e.size, r.size), loose |-> r.loose, noise |-> NAdd(e.noise, r.noise), T |-> s.T, R |-> s.R, sure |-> TRUE]
=============================================================================
