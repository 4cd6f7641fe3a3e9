------------------------------ MODULE MC_Xsec ------------------------------
(* Short histories of saving, loading, deleting and registering one object with three distinct flavours (a) or one of *)
(* the other class (b).                                                                                               *)
EXTENDS Xsec, FiniteSets
X == <<"10", "11", "12.5">>
Z == <<"0", "0.5", "1">>
\* the value in table i of flavour f
TV(f, i, j) == NSub(NAdd(-38, NDiv(j, 8)), NAdd(NDiv(f, 3), NDiv(i, 7)))
DV(f, i, k, j) == IF j = 1 THEN Tiny ELSE NSub(NAdd(-36, NDiv(j * k, 16)), NAdd(NDiv(f, 3), NDiv(i, 7)))
Fl(f) == [tot |-> [i \in 1..4 |-> Tot(X, [j \in 1..3 |-> TV(f, i, j)])], dif |-> [i \in 1..4 |-> Dif(X, Z, [k \in 1..3 |-> [j \in 1..3 |-> DV(f, i, k, j)]])]]
A == TLCEval([k |-> "dis", emin |-> "1e10", emax |-> Pow10("12.5"), fl |-> <<Fl(1), Fl(2), Fl(3)>>])
\* one total sampled elsewhere: representable as text only
A2 == TLCEval([A EXCEPT !.fl[2].tot[3] = Tot(<<"10", "10.5", "12", "12.5">>, <<"-38", "-37", "-36.5", "-36">>)])
B == TLCEval(LET m == 3 IN [k |-> "v1", n |-> m, x |-> Even("1e10", "1e12", m), emin |-> "1e10", emax |-> "1e12",
    s |-> [c \in 1..2 |-> [t \in 1..2 |-> [f \in 1..3 |-> [e \in 1..m |-> NInt(1000 * c + 100 * t + 10 * f + e)]]]],
    d |-> [c \in 1..2 |-> [t \in 1..2 |-> [f \in 1..3 |-> [e \in 1..m |-> [g \in 1..m |-> IF g >= e THEN "0" ELSE NInt(1000 * c + 100 * t + 10 * f + 3 * e + g)]]]]]])
VARIABLES step, start
Starts == [a |-> A, a2 |-> A2, b |-> B]
MInit == XInit /\ step = 0 /\ start \in {"a", "a2", "b"}
T == {11, 2212}
Text == "p_"  H5 == "h"
Load1(s) == LET n == IF \E q \in DOMAIN files : q = H5 THEN H5 ELSE Text IN
   IF start = "b" THEN CanLoadV1(n) /\ Make(s, LoadV1(n)) ELSE CanLoadDis(n) /\ Make(s, LoadDis(n))
LoadT(s) == IF start = "b" THEN CanLoadV1(Text) /\ Make(s, LoadV1(Text)) ELSE CanLoadDis(Text) /\ Make(s, LoadDis(Text))
MNext == /\ step < 5 /\ step' = step + 1 /\ UNCHANGED start
         /\ \/ step = 0 /\ Make(1, Starts[start])
            \/ \E s \in DOMAIN objs : (CanWriteText(objs[s]) /\ WriteText(s, Text)) \/ (CanWriteH5(objs[s]) /\ WriteH5(s, H5))
            \/ Load1(2) \/ LoadT(2)
            \/ DelFiles({H5}) \/ DelFiles({Text \o FlavName[2] \o DKinds[3], Text \o V1Names[3]})
            \/ step < 3 /\ DOMAIN libs = {} /\ NewLib(1, << >>)
            \/ \E t \in T, s \in DOMAIN objs : 1 \in DOMAIN libs /\ ~Registered(1, t) /\ Register(1, t, objs[s])
MSpec == MInit /\ [][MNext]_<<objs, files, libs, step, start>>
Near(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NAdd(1, NAbs(b))))
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
NearTab(a, b, tol) == /\ \A i \in 1..4 : NearSeq(a.tot[i].x, b.tot[i].x, tol) /\ NearSeq(a.tot[i].y, b.tot[i].y, tol)
                                        /\ NearSeq(a.dif[i].x, b.dif[i].x, tol) /\ NearSeq(a.dif[i].y, b.dif[i].y, tol)
                                        /\ Len(a.dif[i].f) = Len(b.dif[i].f) /\ \A k \in 1..Len(b.dif[i].f) : NearSeq(a.dif[i].f[k], b.dif[i].f[k], tol)
\* every object that can be obtained has the original tables, flavour by flavour: exactly through text, in single precision through HDF5
SameData(o) == LET S == Starts[start] IN
   IF start = "b" THEN o.n = S.n /\ NearSeq(o.x, S.x, "1e-8") /\ o.s = S.s /\ \A c \in 1..2 : \A t \in 1..2 : \A f \in 1..3 : \A e \in 1..3 : NearSeq(o.d[c][t][f][e], S.d[c][t][f][e], "1e-60")
   ELSE \A f \in 1..3 : NearTab(o.fl[f], S.fl[f], "1e-60") \/ (start = "a" /\ NearTab(o.fl[f], S.fl[f], "6e-8"))
ObjsOK == \A s \in DOMAIN objs : SameData(objs[s])
LibsOK == \A L \in DOMAIN libs : \A t \in DOMAIN libs[L] : SameData(libs[L][t])
\* a target keeps the object it was registered with, whatever happens to the slot it came from
LibKeeps == [][\A L \in DOMAIN libs : \A t \in DOMAIN libs[L] : L \in DOMAIN libs' /\ t \in DOMAIN libs'[L] /\ libs'[L][t] = libs[L][t]]_<<objs, files, libs, step, start>>
\* tables answer with their entries at the nodes, nothing is read across flavours, types or currents, and both ends are inside
NodesOK == (step = 1 /\ 1 \in DOMAIN objs) => LET o == objs[1] IN \A f \in 0..2 : \A t \in 0..1 : \A c \in 0..1 :
   IF start = "b" THEN \A e \in 1..3 : LET E == NMul(GeV, NExp(o.x[e])) a == TableTotal(o, IF e = 3 THEN o.emax ELSE E, f, t, c) IN a.k = "val" /\ Near(a.v, o.s[c + 1][t + 1][f + 1][e], "1e-60")
   ELSE \A i \in 1..3 : LET s == o.fl[f + 1].tot[Which(t, c)] a == TableTotal(o, IF i = Len(s.x) THEN o.emax ELSE Pow10(s.x[i]), f, t, c) IN
          a.k = "val" /\ NLe(NAbs(NSub(a.v, Pow10(s.y[i]))), a.e)
OutsideOK == (step = 1 /\ 1 \in DOMAIN objs) => LET o == objs[1] IN
   /\ TableTotal(o, NMul(o.emax, "1.0001"), 1, 0, 0) = Refuse /\ TableSingle(o, NMul(o.emax, "1.0001"), o.emin, 1, 0, 0) = Refuse
   /\ TableTotal(o, o.emax, 3, 0, 0) = Is0 /\ TableSingle(o, o.emax, o.emin, 3, 0, 0) = Is0
   /\ Near(NMul(TableTotal(o, NDiv(o.emin, 4), 2, 1, 1).v, 4), TableTotal(o, o.emin, 2, 1, 1).v, "1e-60")
\* the electron-resonance cross section integrates to the muonic fraction of its total
Gl == [k |-> "glashow", gf |-> "1.16639e-23", cm |-> "5.0677e4", me |-> "0.511e6", mm |-> "105.658e6"]
GlashowOK == LET E == "6.3e15" IN
   /\ \A f \in 0..3 : \A t \in 0..1 : \A c \in 0..2 : (~Resonant(f, t, c)) => ObjTotal(Gl, E, f, t, c) = Is0 /\ ObjSingle(Gl, E, "1e15", f, t, c) = Is0
   \* Simpson's rule is exact for the quadratic
   /\ LET S(x) == ObjSingle(Gl, E, x, 0, 1, 2).v IN
        Near(NMul("1e35", NDiv(NMul(NDiv(E, 6), NAdd(S(E), NMul(4, S(NDiv(E, 2))))), GeV)), NMul("1e35", NMul(BR(1), ObjTotal(Gl, E, 0, 1, 2).v)), "1e-50")
   /\ ObjSingle(Gl, E, NMul(E, "1.01"), 0, 1, 2) = Is0
=============================================================================
