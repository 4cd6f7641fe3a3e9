-------------------------------- MODULE Body --------------------------------
(* Propagation media and the tracks through them.  A body is what it was built from; a track is a     *)
(* position on a segment with a direction, plus the geometry that ties it to its body.  Saving an     *)
(* object stores all of it, restoring gives an object with the same content.                          *)
EXTENDS AkimaErr
CONSTANTS Km, Cm                       \* length units in natural units (1/eV)
VARIABLES bodies, tracks, saved        \* slot -> record; name -> record
None0 == [k |-> "none"]

SQ(x) == NMul(x, x)
\* ------------------------------------------------------------------ intervals of reals
Iv(a, b) == <<a, b>>
Around(v, e) == <<NSub(v, e), NAdd(v, e)>>
Pos(x) == NMax(x, 0)
ISqrt(i) == <<NSqrt(Pos(i[1])), NSqrt(Pos(i[2]))>>
Within(v, i) == NLe(i[1], v) /\ NLe(v, i[2])
Widen(i, e) == <<NSub(i[1], e), NAdd(i[2], e)>>

\* ------------------------------------------------------------------ bodies
EarthR == "6371"   AtmH == "22"        \* km
SunR == NRoundDouble(NMul("695980", Km))  SunNuR == NRoundDouble(NMul("694439", Km))
Vac == [k |-> "vac", icd |-> FALSE]
Uniform(rho, ye) == [k |-> "const", rho |-> rho, ye |-> ye, icd |-> FALSE]
\* layered bodies: a density and a composition table over the same nodes
TableOK(x, a, b) == Len(x) = Len(a) /\ Len(x) = Len(b) /\ Len(x) >= 3 /\ Increasing(x)
Layered(k, x, a, b) == [k |-> k, d |-> Mk(x, a), c |-> Mk(x, b), icd |-> FALSE, h |-> AtmH]
Tabled == {"var", "earth", "sun", "sunas", "earthatm"}
Cst(b) == b.k \in {"vac", "const"} \/ b.icd
Id(b) == CASE b.k = "vac" -> 1 [] b.k = "const" -> 2 [] b.k = "var" -> 3 [] b.k = "earth" -> 4 [] b.k = "sun" -> 5 [] b.k = "sunas" -> 6 [] b.k = "earthatm" -> 7
Name(b) == CASE b.k = "vac" -> "Vacuum" [] b.k = "const" -> "ConstantDensity" [] b.k = "var" -> "VariableDensity" [] b.k = "earth" -> "Earth" [] b.k = "sun" -> "Sun"
             [] b.k = "sunas" -> "SunASnu" [] b.k = "earthatm" -> "EarthAtm"
Params(b) == CASE b.k = "const" -> <<b.rho, b.ye>> [] b.k = "var" -> b.d.x \o b.d.y \o b.c.y [] OTHER -> << >>
Radius(b) == CASE b.k = "earth" -> EarthR [] b.k = "earthatm" -> EarthR [] b.k = "sun" -> SunR [] b.k = "sunas" -> SunNuR

\* ------------------------------------------------------------------ tracks
\* a straight segment; g is what else it depends on
Line(k, x, xi, xf) == [k |-> k, x |-> x, xi |-> xi, xf |-> xf]
Chord(x, xi, xf, base) == [k |-> "earth", x |-> x, xi |-> xi, xf |-> xf, base |-> base]
SunPath(b) == NMul(2, NSqrt(NSub(SQ(SunNuR), SQ(b))))
SunLine(x, xi, b) == [k |-> "sunas", x |-> x, xi |-> xi, xf |-> SunPath(b), b |-> b]
\* from the top of the atmosphere to the ground, arriving at a zenith angle of cosine c; lengths in natural units
Sin2(c) == NSub(1, SQ(c))
AirPath(c, R, A) == NSub(NSqrt(NSub(SQ(NAdd(R, A)), NMul(SQ(R), Sin2(c)))), NMul(R, c))
AtmLine(x, c, R, A) == [k |-> "earthatm", x |-> x, xi |-> "0", xf |-> AirPath(c, R, A), c |-> c, R |-> R, H |-> A, L |-> AirPath(c, R, A)]
Reversed(t) == [t EXCEPT !.xi = t.xf, !.xf = t.xi]
Moved(t, x) == [t EXCEPT !.x = x]

\* ------------------------------------------------------------------ where a track is in its body
\* squared distance to the centre in km^2
EarthR2(t) == LET x == NDiv(t.x, Km) IN NAdd(SQ(EarthR), NSub(SQ(x), NMul(NDiv(t.base, Km), x)))
SunR2(t) == NAdd(SQ(SunNuR), NSub(SQ(t.x), NMul(NMul(2, t.x), NSqrt(NSub(SQ(SunNuR), SQ(t.b))))))
AtmR2(b, t) == LET x == NDiv(t.x, Km) A == NAdd(EarthR, b.h)
                   s == NSqrt(NSub(SQ(A), NMul(SQ(EarthR), Sin2(t.c)))) \* half the full chord through the outer sphere
               IN NAdd(SQ(A), NSub(SQ(x), NMul(NMul(2, s), x)))
\* the same with the rounding errors of double precision
U(n) == NMul(n, Eps)
EarthR2I(t) == LET x == NDiv(t.x, Km) IN Around(EarthR2(t), NMul(U(8), NAdd(SQ(EarthR), NAdd(SQ(x), NAbs(NMul(NDiv(t.base, Km), x))))))
SunR2I(t) == Around(SunR2(t), NMul(U(16), NAdd(SQ(SunNuR), NAdd(SQ(t.x), NMul(NMul(2, NAbs(t.x)), SunNuR)))))
AtmR2I(b, t) == LET x == NDiv(t.x, Km) A == NAdd(EarthR, b.h)
                    \* square roots amplify errors where the ray is horizontal at the surface
                    q == NSub(SQ(A), NMul(SQ(EarthR), Sin2(t.c)))
                    es == NMul(2, NSub(NSqrt(NAdd(q, NMul(U(16), SQ(A)))), NSqrt(Pos(NSub(q, NMul(U(16), SQ(A)))))))
                IN Around(AtmR2(b, t), NAdd(NMul(U(32), NAdd(SQ(A), NAdd(SQ(x), NMul(NMul(2, A), NAbs(x))))), NMul(es, NAbs(x))))

\* ------------------------------------------------------------------ profiles: value with its error bound at table argument u
First(s) == s.x[1]  Last(s) == s.x[Len(s.x)]
Brk(s) == <<First(s), Last(s)>>
InTab(s, u) == NLe(First(s), u) /\ NLe(u, Last(s))
TabVal(s, u) == <<SVal(s, u), ErrAt(s, Seg(s.x, u), u)>>
VarProf(s, u) == IF InTab(s, u) THEN TabVal(s, u) ELSE <<0, 0>>
EarthProf(s, u) == IF NLt(u, First(s)) THEN <<s.y[1], 0>> ELSE IF NLt(Last(s), u) THEN <<s.y[Len(s.y)], 0>> ELSE TabVal(s, u)
SunProf(s, u) == IF NLt(u, First(s)) THEN <<s.y[1], 0>> ELSE IF NLt(Last(s), u) THEN <<0, 0>> ELSE TabVal(s, u)
AirDensity(height) == NMul("0.0012", NExp(NNeg(NDiv(height, "7.594"))))
AtmProf(b, s, r, outside) == LET u == NDiv(r, NAdd(EarthR, b.h)) IN
   IF NLt(u, First(s)) THEN <<s.y[1], 0>> ELSE IF NLt(EarthR, r) THEN outside ELSE IF NLt(Last(s), u) THEN <<s.y[Len(s.y)], 0>> ELSE TabVal(s, u)
\* the interval of answers allowed when the argument is only known to lie in i: over its ends, its middle and whatever
\* points of pts (where the profile may jump) it contains
Mid(i) == NDiv(NAdd(i[1], i[2]), 2)
Grow(h, p) == <<NMin(h[1], NSub(p[1], p[2])), NMax(h[2], NAdd(p[1], p[2]))>>
RECURSIVE GrowAll(_, _)
GrowAll(h, ps) == IF ps = << >> THEN h ELSE GrowAll(Grow(h, ps[1]), Tail(ps))
HullAt(F(_), i, pts) == LET m == F(Mid(i)) q == SelectSeq(pts, LAMBDA u : Within(u, i))
                            h == GrowAll(<<NSub(m[1], m[2]), NAdd(m[1], m[2])>>, <<F(i[1]), F(i[2])>> \o [k \in 1..Len(q) |-> F(q[k])])
                        IN Widen(h, NMul("0.1", NSub(h[2], h[1])))
RelI(i, R) == <<NMul(NDiv(i[1], R), NSub(1, U(4))), NMul(NDiv(i[2], R), NAdd(1, U(4)))>>
Refuse == [k |-> "refuse"]  Either == [k |-> "either"]
Val(i) == [k |-> "val", i |-> i]
\* what = "d" for the density, "c" for the composition column of the table
Table(b, what) == IF what = "d" THEN b.d ELSE b.c
Answer(b, t, what) ==
  CASE b.k = "vac" -> Val(IF what = "d" THEN Iv(0, 0) ELSE Iv(1, 1))
    [] b.k = "const" -> Val(IF what = "d" THEN Iv(b.rho, b.rho) ELSE Iv(b.ye, b.ye))
    [] b.k = "var" -> LET s == Table(b, what) u == NDiv(t.x, Cm) i == Around(u, NMul(U(2), NAbs(u))) IN LET F(q) == VarProf(s, q) IN Val(HullAt(F, i, Brk(s)))
    [] b.k = "earth" -> LET s == Table(b, what) r2 == EarthR2I(t) i == RelI(ISqrt(r2), EarthR) IN
         IF NLt(r2[2], "-1e-6") THEN Refuse ELSE IF NLt(r2[1], "-1e-6") THEN Either ELSE LET F(q) == EarthProf(s, q) IN Val(HullAt(F, i, Brk(s)))
    [] b.k = "sun" -> LET s == Table(b, what) u == NDiv(t.x, SunR) i == Around(u, NMul(U(4), NAbs(u))) IN LET F(q) == SunProf(s, q) IN Val(HullAt(F, i, Brk(s)))
    [] b.k = "sunas" -> LET s == Table(b, what) i == RelI(ISqrt(SunR2I(t)), SunNuR) IN LET F(q) == SunProf(s, q) IN Val(HullAt(F, i, Brk(s)))
    [] b.k = "earthatm" -> LET s == Table(b, what) i == RelI(ISqrt(AtmR2I(b, t)), 1)
            out(r) == IF what = "d" THEN LET v == AirDensity(NSub(r, EarthR)) IN <<v, NMul(U(64), v)>> ELSE <<"0.494", U(1)>>
            P(r) == AtmProf(b, s, r, out(r))
         IN Val(HullAt(P, i, <<EarthR, NMul(First(s), NAdd(EarthR, b.h)), NMul(Last(s), NAdd(EarthR, b.h))>>))
Density(b, t) == Answer(b, t, "d")
\* solar tables hold the hydrogen fraction
Composition(b, t) == LET a == Answer(b, t, "c") IN
   IF b.k \in {"sun", "sunas"} /\ a.k = "val" THEN Val(<<NDiv(NAdd(1, a.i[1]), 2), NDiv(NAdd(1, a.i[2]), 2)>>) ELSE a
Fits(b, t) == b.k = t.k

\* ------------------------------------------------------------------ transitions
BInit == bodies = << >> /\ tracks = << >> /\ saved = << >>
Put(f, s, r) == [q \in DOMAIN f \cup {s} |-> IF q = s THEN r ELSE f[q]]
Build(s, b) == bodies' = Put(bodies, s, b) /\ UNCHANGED <<tracks, saved>>
Lay(s, t) == tracks' = Put(tracks, s, t) /\ UNCHANGED <<bodies, saved>>
CopyBody(s, d) == Build(d, bodies[s])
CopyTrack(s, d) == Lay(d, tracks[s])
SetX(s, x) == Lay(s, Moved(tracks[s], x))
Reverse(s) == Lay(s, Reversed(tracks[s]))
SetConst(s, v) == Build(s, [bodies[s] EXCEPT !.icd = v])
SetHeight(s, hh) == Build(s, [bodies[s] EXCEPT !.h = hh])
SaveBody(s, n) == saved' = Put(saved, n, bodies[s]) /\ UNCHANGED <<bodies, tracks>>
SaveTrack(s, n) == saved' = Put(saved, n, tracks[s]) /\ UNCHANGED <<bodies, tracks>>
LoadBody(n, d) == Build(d, saved[n])
LoadTrack(n, d) == Lay(d, saved[n])
=============================================================================
