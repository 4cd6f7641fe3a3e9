------------------------------ MODULE TraceBody ------------------------------
(* Recorded histories of bodies and tracks against Body. *)
EXTENDS Body, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
TKm == TraceLog[1].km
TCm == TraceLog[1].cm
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
OK(e) == Is(e) /\ ev.r = "ok"
Same == UNCHANGED <<bodies, tracks, saved>>
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])
Units == OK("units") /\ Same
\* numbers of a text table are read as doubles; which columns matter depends on the model
Col(rows, j) == [i \in 1..Len(rows) |-> NRoundDouble(rows[i][j])]
Cols(k) == IF k \in {"earth", "earthatm"} THEN <<1, 2, 3>> ELSE <<2, 4, 7>>
FileOK(k, rows) == Len(rows) >= 3 /\ \A i \in 1..Len(rows) : Len(rows[i]) = Len(rows[1]) /\ Len(rows[1]) >= Cols(k)[3]
MkBody == /\ Is("body")
          /\ CASE ev.k = "vac" -> ev.r = "ok" /\ Build(ev.s, Vac)
               [] ev.k = "const" -> ev.r = "ok" /\ Build(ev.s, Uniform(ev.rho, ev.ye))
               [] ev.how = 0 -> IF TableOK(ev.x, ev.d, ev.c) THEN ev.r = "ok" /\ Build(ev.s, Layered(ev.k, ev.x, ev.d, ev.c)) ELSE ev.r = "refused" /\ Same
               [] OTHER -> IF FileOK(ev.k, ev.rows)
                           THEN LET q == Cols(ev.k) x == Col(ev.rows, q[1]) a == Col(ev.rows, q[2]) c == Col(ev.rows, q[3]) IN
                                IF TableOK(x, a, c) THEN ev.r = "ok" /\ Build(ev.s, Layered(ev.k, x, a, c)) ELSE ev.r = "refused" /\ Same
                           ELSE ev.r = "refused" /\ Same
\* arguments in the order of the constructors
V(i) == ev.v[i]
TrackOf(k, a, n) ==
  IF k \in {"vac", "const", "var", "sun"} THEN (IF n = 3 THEN Line(k, V(1), V(2), V(3)) ELSE IF n = 2 THEN Line(k, V(1), V(1), V(2)) ELSE Line(k, "0", "0", V(1)))
  ELSE IF k = "earth" THEN (IF n = 4 THEN Chord(V(1), V(2), V(3), V(4)) ELSE IF n = 3 THEN Chord(V(1), V(1), V(2), V(3)) ELSE Chord("0", "0", V(1), V(1)))
  ELSE IF k = "sunas" THEN (IF n = 3 THEN SunLine(V(1), V(2), V(3)) ELSE IF n = 2 THEN SunLine(V(1), V(1), V(2)) ELSE SunLine("0", "0", V(1)))
  ELSE IF a = "xphi" THEN AtmLine(V(1), NCos(V(2)), V(3), V(4)) ELSE IF a = "phi" THEN AtmLine("0", NCos(V(1)), V(2), V(3))
  ELSE IF a = "cos" THEN AtmLine("0", V(1), V(2), V(3))
  ELSE LET b == bodies[ev.b] IN AtmLine("0", IF a = "bphi" THEN NCos(V(1)) ELSE V(1), NMul(EarthR, Km), NMul(b.h, Km))
MkTrack == OK("track") /\ Lay(ev.s, TrackOf(ev.k, ev.a, Len(ev.v)))
\* lengths derived from the geometry, with the rounding of their square roots
PathI(c, R, A) == LET q == NSub(SQ(NAdd(R, A)), NMul(SQ(R), Sin2(c))) i == ISqrt(Around(q, NMul(U(16), SQ(NAdd(R, A)))))
                  IN Widen(<<NSub(i[1], NMul(R, c)), NSub(i[2], NMul(R, c))>>, NMul(U(8), NAdd(R, A)))
SunPathI(b) == LET i == ISqrt(Around(NSub(SQ(SunNuR), SQ(b)), NMul(U(8), SQ(SunNuR)))) IN Widen(<<NMul(2, i[1]), NMul(2, i[2])>>, NMul(U(8), SunNuR))
DerivedI(t) == IF t.k = "earthatm" THEN PathI(t.c, t.R, t.H) ELSE SunPathI(t.b)
\* an end of a track: where it was given, exactly; where it is derived, within rounding
EndOK(t, v, want) == IF t.k \in {"earthatm", "sunas"} /\ NEq(want, IF t.k = "earthatm" THEN t.L ELSE SunPath(t.b)) THEN Within(v, DerivedI(t)) ELSE NEq(v, want)
Extra(t) == IF t.k = "earth" THEN 1 ELSE IF t.k = "sunas" THEN 1 ELSE IF t.k = "earthatm" THEN 3 ELSE 0
TGet == /\ OK("tget") /\ Same
        /\ LET t == tracks[ev.s] IN
             /\ ev.k = t.k /\ NEq(ev.x, t.x) /\ EndOK(t, ev.xi, t.xi) /\ EndOK(t, ev.xf, t.xf)
             /\ Len(ev.p) = 2 + Extra(t) /\ NEq(ev.p[1], ev.xi) /\ NEq(ev.p[2], ev.xf)
             /\ IF t.k = "earth" THEN NEq(ev.p[3], t.base) /\ NEq(ev.L, t.base) ELSE TRUE
             /\ IF t.k = "sunas" THEN NEq(ev.p[3], t.b) ELSE TRUE
             /\ IF t.k = "earthatm" THEN /\ NLe(0, ev.p[3]) /\ NLe(ev.p[3], "3.1415926535897936") /\ Close(NCos(ev.p[3]), t.c, U(4))
                                         /\ NEq(NRoundDouble(t.R), ev.p[4]) /\ NEq(NRoundDouble(t.H), ev.p[5]) /\ Within(ev.L, DerivedI(t)) ELSE TRUE
BGet == /\ OK("bget") /\ Same
        /\ LET b == bodies[ev.s] IN
             /\ ev.k = b.k /\ ev.id = Id(b) /\ ev.name = Name(b) /\ ev.const = Cst(b) /\ SameSeq(ev.p, Params(b))
             /\ IF b.k \in {"earth", "sun", "sunas", "earthatm"} THEN NEq(ev.R, NRoundDouble(Radius(b))) ELSE TRUE
             /\ IF b.k = "earthatm" THEN NEq(ev.h, b.h) ELSE TRUE
Agrees(a, r, v) == IF a.k = "refuse" THEN r = "refused" ELSE IF r = "refused" THEN a.k = "either" ELSE IF a.k = "either" THEN NIsNum(v) ELSE Within(v, Widen(a.i, NMul(U(2), NMax(NAbs(a.i[1]), NAbs(a.i[2])))))
At == /\ OK("at") /\ Same
      /\ LET b == bodies[ev.b] t == tracks[ev.t] IN Agrees(Density(b, t), ev.dr, IF ev.dr = "ok" THEN ev.d ELSE 0) /\ Agrees(Composition(b, t), ev.yr, IF ev.yr = "ok" THEN ev.y ELSE 0)
Copy == \/ OK("bcopy") /\ CopyBody(ev.s, ev.d)
        \/ OK("tcopy") /\ CopyTrack(ev.s, ev.d)
Change == \/ OK("setx") /\ SetX(ev.s, ev.x)
          \/ OK("rev") /\ Reverse(ev.s)
          \/ OK("icd") /\ SetConst(ev.s, ev.v)
          \/ OK("seth") /\ SetHeight(ev.s, ev.h)
Files == \/ OK("save") /\ ev.open = 0 /\ (IF ev.w = "b" THEN SaveBody(ev.s, ev.n) ELSE SaveTrack(ev.s, ev.n))
         \/ OK("load") /\ ev.open = 0 /\ (IF ev.w = "b" THEN LoadBody(ev.n, ev.d) ELSE LoadTrack(ev.n, ev.d))
         \/ OK("reopen") /\ Same
Unknown == Is("unknown") /\ ev.r = "refused" /\ Same
TInit == l = 1 /\ BInit
TNext == (Units \/ MkBody \/ MkTrack \/ TGet \/ BGet \/ At \/ Copy \/ Change \/ Files \/ Unknown) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, bodies, tracks, saved>>
View == l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
