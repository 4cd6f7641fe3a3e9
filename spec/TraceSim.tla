----------------------------- MODULE TraceSim -----------------------------
(* Recorded histories of simulations against Sim. *)
EXTENDS Sim, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TraceUnit == TraceLog[1]
VARIABLES l, sim, file, ask
vars == <<l, sim, file, ask>>
Slots == 0..9
ev == TraceLog[l]
Has(e) == l <= Len(TraceLog) /\ ev.e = e
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("0.05", NAbs(b))))
TOL == "2e-6"
Answer(ok) == ev.r = (IF ok THEN "ok" ELSE "refused")
Keep(v) == UNCHANGED v
TInit == l = 1 /\ sim = [x \in Slots |-> None] /\ file = <<>> /\ ask = [x \in Slots |-> <<>>]
UnitsE == Has("units") /\ ev.r = "ok" /\ UNCHANGED <<sim, file, ask>>
\* lookups of objects which do not exist
Nobody == /\ l <= Len(TraceLog) /\ "s" \in DOMAIN ev /\ ev.e \notin {"newe", "new1", "newm", "newh", "mvc", "mva", "lay"} /\ sim[ev.s].k = "none"
          /\ ev.r = "none" /\ UNCHANGED <<sim, file, ask>>
Ops == {"body", "track", "E", "st", "evo", "mix", "ph", "dm", "def", "osc", "allow", "basis", "tau", "gr", "src", "xs", "inint", "tol", "rk8", "pos", "posstep", "prog", "h"}
\* the positions at which the medium of a slot was looked at: all of the way
Looked(s) == LET x == Position(s) y == NAdd(x, NSub(s.track.b, s.track.a)) IN IF Shortcut(s) THEN <<y, y>> ELSE <<NMin(x, y), NMax(x, y)>>
Op == /\ l <= Len(TraceLog) /\ ev.e \in Ops /\ sim[ev.s].k /= "none"
      /\ LET s == sim[ev.s] a == Act(s, ev) IN
           /\ Answer(a.ok)
           /\ sim' = [sim EXCEPT ![ev.s] = TLCEval(a.s)]
           /\ ask' = IF ev.e = "evo" /\ a.ok /\ "slot" \in DOMAIN s.body /\ s.body.slot >= 0
                     THEN LET q == Looked(s) o == ask[s.body.slot] IN [ask EXCEPT ![s.body.slot] = IF o = <<>> THEN q ELSE <<NMin(o[1], q[1]), NMax(o[2], q[2])>>] ELSE ask
      /\ UNCHANGED file
New == /\ l <= Len(TraceLog) /\ ev.e \in {"newe", "new1", "newm"}
       /\ LET a == Made(ev) IN Answer(a.ok) /\ sim' = [sim EXCEPT ![ev.s] = a.s]
       /\ UNCHANGED <<file, ask>>
Move == /\ l <= Len(TraceLog) /\ ev.e \in {"mvc", "mva"}
        /\ IF sim[ev.b].k = "none" \/ (ev.e = "mva" /\ sim[ev.a].k = "none") THEN ev.r = "none" /\ UNCHANGED sim
           ELSE ev.r = "ok" /\ sim' = IF ev.a = ev.b /\ ev.e = "mva" THEN sim ELSE [sim EXCEPT ![ev.b] = Empty, ![ev.a] = sim[ev.b]]
        /\ UNCHANGED <<file, ask>>
Lay == Has("lay") /\ ev.r = "ok" /\ ask' = [ask EXCEPT ![ev.s] = <<>>] /\ UNCHANGED <<sim, file>>
Asked == /\ Has("asked") /\ ev.r = "ok" /\ UNCHANGED <<sim, file>> /\ ask' = [ask EXCEPT ![ev.s] = <<>>]
         /\ IF ask[ev.s] = <<>> THEN TRUE ELSE Close(ev.lo, ask[ev.s][1], "1e-12") /\ Close(ev.hi, ask[ev.s][2], "1e-12")

\* a medium which refused to answer in the middle: the failure is reported, the state is lost
Broken == /\ Has("evobad") /\ ev.r = "refused" /\ CanEvolve(sim[ev.s])
          /\ sim' = [sim EXCEPT ![ev.s].has = FALSE, ![ev.s].valid = FALSE] /\ UNCHANGED file
          /\ ask' = IF "slot" \in DOMAIN sim[ev.s].body THEN [ask EXCEPT ![sim[ev.s].body.slot] = <<>>] ELSE ask
Refuse == Has("refuse") /\ ev.r = "ok" /\ UNCHANGED <<sim, file, ask>>

(* Questions: f flavour, e node, r type, from 0. *)
Tol(s) == IF "tol" \in DOMAIN ev THEN ev.tol ELSE TOL
Evals == {"fn", "mn", "fe", "me", "fa", "ma", "f1", "m1", "fs", "ms"}
Kind == IF ev.e \in {"fn", "fe", "fa", "f1", "fs"} THEN "flavor" ELSE "mass"
Eval == /\ l <= Len(TraceLog) /\ ev.e \in Evals /\ sim[ev.s].k /= "none" /\ UNCHANGED <<sim, file, ask>>
        /\ LET s == sim[ev.s]
               r == IF "rho" \in DOMAIN ev THEN ev.rho ELSE 0
               fine == /\ s.k = "live" /\ HasE(s) /\ ev.f >= 0 /\ ev.f < s.n /\ r >= 0 /\ r < s.nr
                       /\ CASE ev.e \in {"fn", "mn"} -> ev.n >= 0 /\ ev.n < s.ne
                            [] ev.e \in {"fe", "me"} -> InRange(s, ev.E)
                            [] ev.e \in {"fa", "ma"} -> InRange(s, ev.E) /\ ev.av = s.n
                            [] ev.e \in {"f1", "m1"} -> s.one
                            [] ev.e \in {"fs", "ms"} -> s.one
           IN IF ~fine THEN ev.r = "refused"
              ELSE IF ~s.has THEN ev.r \in {"ok", "refused"}   \* nothing is said about a state which was not set
              ELSE /\ ev.r = "ok"
                   /\ Close(ev.v, CASE ev.e \in {"fn", "mn"} -> AtNode(s, Kind, ev.f + 1, ev.n + 1, r + 1)
                                    [] ev.e \in {"fe", "me"} -> At(s, Kind, ev.f + 1, ev.E, r + 1, "none")
                                    [] ev.e \in {"fa", "ma"} -> At(s, Kind, ev.f + 1, ev.E, r + 1, ev.sc)
                                    [] ev.e \in {"f1", "m1"} -> AtNode(s, Kind, ev.f + 1, 1, 1)
                                    [] ev.e \in {"fs", "ms"} -> At(s, Kind, ev.f + 1, s.E[1], 1, ev.sc), Tol(s))
Get == /\ Has("get") /\ sim[ev.s].k /= "none" /\ ev.r = "ok" /\ UNCHANGED <<sim, file, ask>>
       /\ LET s == sim[ev.s] IN
            /\ ev.ne = s.ne /\ ev.int = (IF s.inter THEN 1 ELSE 0)
            /\ (s.k = "live" => /\ ev.n = s.n /\ ev.nr = s.nr /\ ev.osc = (IF s.osc THEN 1 ELSE 0)
                                /\ (HasE(s) => Len(ev.E) = Len(s.E) /\ \A k \in 1..s.ne : NEq(ev.E[k], s.E[k]))
                                /\ Close(ev.t, s.t, "1e-12") /\ Close(ev.t0, s.t0, "1e-12"))
            /\ ev.b = (IF s.body.k \in {"none", "null"} THEN 0 ELSE 1)
            /\ (HasTrack(s) => Len(ev.tr) = 3 /\ Close(ev.tr[1], Position(s), "1e-12") /\ NEq(ev.tr[2], s.track.a) /\ NEq(ev.tr[3], s.track.b))
            /\ (~HasTrack(s) => ev.tr = <<>>)
Params == /\ l <= Len(TraceLog) /\ ev.e \in {"gmix", "gph", "gdm"} /\ sim[ev.s].k /= "none" /\ UNCHANGED <<sim, file, ask>>
          /\ LET s == sim[ev.s] ok == Valid01(s.n, ev.i) /\ (ev.e = "gdm" \/ Valid01(s.n, ev.j)) IN
               /\ Answer(ok)
               /\ (ok => NEq(NRoundDouble(ev.v), NRoundDouble(CASE ev.e = "gmix" -> s.th[ev.i + 1][ev.j + 1] [] ev.e = "gph" -> s.ph[ev.i + 1][ev.j + 1] [] OTHER -> s.dm[ev.i + 1])))
\* the total Hamiltonian at the current position, by its square's trace
Hamil == /\ Has("ham") /\ sim[ev.s].k /= "none" /\ UNCHANGED <<sim, file>> /\ ask' = ask
         /\ LET s == sim[ev.s] ok == s.k = "live" /\ HasE(s) /\ s.body.k \notin {"none", "null"} /\ HasTrack(s) /\ ev.n < s.ne /\ ev.rho < s.nr IN
              /\ Answer(ok)
              /\ (ok /\ s.valid => LET H == Ham(s, Projs(s), ev.rho + 1, ev.n + 1, LayerAt(s.body, Position(s))) x == TrP(H, H) IN NLe(NAbs(NSub(x, ev.v)), NMul(TOL, x)))

(* Files. *)
Key == <<ev.n, ev.g>>
KeepFile(over) == {x \in DOMAIN file : ~(over /\ x[1] = ev.n)}
\* cross sections are kept beside the state or in a place shared by several states
Sx == "sx" \in DOMAIN ev /\ ev.sx
Loc == <<ev.n, IF "cl" \in DOMAIN ev /\ ev.cl /= "-" THEN "xs:" \o ev.cl ELSE "xs of " \o ev.g>>
Save == /\ Has("save") /\ sim[ev.s].k /= "none" /\ UNCHANGED <<sim, ask>>
        /\ LET s == sim[ev.s] ok == Savable(s) /\ (ev.par = "/" \/ (~ev.over /\ <<ev.n, ev.par>> \in DOMAIN file)) /\ (ev.over \/ ~\E x \in DOMAIN file : x = Key) IN
             /\ Answer(ok)
             /\ file' = IF ~ok THEN (IF Savable(s) /\ ev.over THEN [x \in KeepFile(TRUE) |-> file[x]] ELSE file)
                        ELSE [x \in KeepFile(ev.over) \cup {Key} \cup (IF s.inter /\ Sx THEN {Loc} ELSE {}) |-> IF x = Key \/ (x = Loc /\ s.inter /\ Sx) THEN Stored(s) ELSE file[x]]
\* what is known of interactions comes from where they were saved
Whole == file[Key].inter => Loc \in DOMAIN file
Read(s) == LET f == file[Key] q == ReadInto(s, f) IN IF f.inter THEN [q EXCEPT !.xs = file[Loc].xs, !.taus = file[Loc].taus, !.grs = file[Loc].grs] ELSE q
Load == /\ Has("load") /\ sim[ev.s].k /= "none" /\ UNCHANGED <<file, ask>>
        /\ LET ok == Key \in DOMAIN file IN (ok => Whole) /\ Answer(ok) /\ sim' = IF ok THEN [sim EXCEPT ![ev.s] = Read(sim[ev.s])] ELSE sim
NewH == /\ Has("newh") /\ UNCHANGED <<file, ask>>
        /\ LET ok == Key \in DOMAIN file IN (ok => Whole) /\ Answer(ok) /\ sim' = [sim EXCEPT ![ev.s] = IF ok THEN Read(Empty) ELSE None]

(* Tables which are specified elsewhere (TauDecay, Xsec): as they are for these energies. *)
TausE == Has("taus") /\ ev.r = "ok" /\ UNCHANGED <<file, ask>> /\ sim' = [sim EXCEPT ![ev.s].taus = [all |-> <<ev.all0, ev.all1>>, lep |-> <<ev.lep0, ev.lep1>>]]
GrsE == Has("grs") /\ ev.r = "ok" /\ UNCHANGED <<file, ask>> /\ sim' = [sim EXCEPT ![ev.s].grs = [s |-> ev.st, d |-> ev.d]]
\* the terms of the evolution equation in flavour space, now
Max3(a) == Fold(LAMBDA x, y : NMax(x, NAbs(y)), 0, a)
Terms == /\ Has("terms") /\ ev.r = "ok" /\ UNCHANGED <<sim, file, ask>>
         /\ LET s == sim[ev.s] P == Projs(s) lay == LayerAt(s.body, Position(s)) IN
              \A r \in 1..s.nr : \A e \in 1..s.ne :
                LET x == ev.t[r][e] g == TLCEval([a \in 1..s.n |-> IF a <= 3 /\ s.inter THEN NMul("0.5", Loss(s, lay, r, a, e)) ELSE 0])
                    \* from the weights the library has, which are close to those of the specification
                    W == [r2 \in 1..s.nr |-> [e2 \in 1..s.ne |-> ev.t[r2][e2].p]] i == TLCEval([a \in 1..s.n |-> Gain(s, lay, W, r, e, a)])
                    near(p, q, big) == NLe(NAbs(NSub(p, q)), NMul(TOL, NAdd(NMul("0.05", big), NAbs(q))))
                    gm == Max3(g) im == NMax(Max3(i), NMul("1e-6", gm))
                IN /\ \A a \in 1..s.n : near(x.g[a], g[a], gm) /\ near(x.i[a], i[a], im) /\ Close(x.p[a], TrP(P[r][a], s.rho[r][e]), TOL)
                   /\ near(x.gg, NDot(g, g), NMul(gm, gm)) /\ near(x.ii, NDot(i, i), NMul(im, im))
TNext == (UnitsE \/ Nobody \/ Op \/ New \/ Move \/ Lay \/ Asked \/ Broken \/ Refuse \/ Eval \/ Get \/ Params \/ Hamil \/ Save \/ Load \/ NewH \/ TausE \/ GrsE \/ Terms) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
