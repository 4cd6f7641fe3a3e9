----------------------------- MODULE TraceAtm -----------------------------
(* Recorded histories of atmospheric sets against Atm; a: the set, c: cosine of the zenith angle. *)
EXTENDS Atm, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TraceUnit == TraceLog[1]
VARIABLES l, atm, file
vars == <<l, atm, file>>
Slots == 0..4
ev == TraceLog[l]
Has(e) == l <= Len(TraceLog) /\ ev.e = e
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("0.05", NAbs(b))))
TOL == "2e-6"
Answer(ok) == ev.r = (IF ok THEN "ok" ELSE "refused")
Me == atm[ev.a]
TInit == l = 1 /\ atm = [x \in Slots |-> NoAtm] /\ file = <<>>
UnitsE == Has("units") /\ ev.r = "ok" /\ UNCHANGED <<atm, file>>
Nobody == l <= Len(TraceLog) /\ ev.e \notin {"units", "new", "newh", "mvc", "mva"} /\ Me.k = "none" /\ ev.r = "none" /\ UNCHANGED <<atm, file>>
Exists == l <= Len(TraceLog) /\ ev.e \notin {"units", "new", "newh", "mvc", "mva"} /\ Me.k /= "none"
New == /\ Has("new") /\ UNCHANGED file
       /\ LET ok == Len(ev.cs) > 0 /\ Constructible(ev.n, ev.nt, TRUE) IN Answer(ok) /\ atm' = IF ok THEN [atm EXCEPT ![ev.a] = FreshAtm(ev.cs, ev.n, ev.nt, ev.E, ev.inter, ev.xs)] ELSE [atm EXCEPT ![ev.a] = NoAtm]
Set(r) == Answer(r.ok) /\ atm' = [atm EXCEPT ![ev.a] = TLCEval(r.a)] /\ UNCHANGED file
Ops == {"mix", "ph", "dm", "osc", "tau", "gr", "allow", "pos", "posstep", "prog", "tol", "def"}
Op == Exists /\ ev.e \in Ops /\ Set(Each(Me, ev))
St == Exists /\ ev.e = "st" /\ Set(StateA(Me, ev.d, ev.v, ev.b))
Evo == Exists /\ ev.e = "evo" /\ Set(EvolveA(Me))
Earth == Exists /\ ev.e = "earth" /\ Set(EarthA(Me, ev.earth))
Threads == Exists /\ ev.e = "threads" /\ Set(YesA([Me EXCEPT !.thr = ev.want])) /\ (IF ev.want > 0 THEN ev.n = ev.want ELSE ev.n >= 1)
Poison == Exists /\ ev.e = "poison" /\ Set(IF ev.i >= 0 /\ ev.i < Len(Me.s) THEN YesA([Me EXCEPT !.s[ev.i + 1] = Act(Me.s[ev.i + 1], [e |-> "body", body |-> [k |-> "null"]]).s]) ELSE NoA(Me))
\* evaluations
NodeE == /\ Exists /\ ev.e = "node" /\ UNCHANGED <<atm, file>>
        /\ LET ok == ev.i >= 0 /\ ev.i < Len(Me.s) /\ ev.f < Me.s[1].n /\ ev.n < Me.s[1].ne /\ ev.rho < Me.s[1].nr IN
             IF ~ok THEN ev.r = "refused" ELSE IF Me.s[ev.i + 1].has THEN ev.r = "ok" /\ Close(ev.v, AtNode(Me.s[ev.i + 1], "flavor", ev.f + 1, ev.n + 1, ev.rho + 1), TOL) ELSE ev.r \in {"ok", "refused"}
Eval == /\ Exists /\ ev.e \in {"ev", "eva"} /\ UNCHANGED <<atm, file>>
        /\ IF ~ReadOk(Me, ev.f + 1, ev.c, ev.E, ev.rho + 1) THEN ev.r = "refused"
           ELSE IF ~Known(Me) THEN ev.r \in {"ok", "refused"}
           ELSE ev.r = "ok" /\ Close(ev.v, Read(Me, ev.f + 1, ev.c, ev.E, ev.rho + 1, IF ev.e = "eva" THEN ev.sc ELSE "none"), TOL)
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NEq(a[k], b[k])
Get == /\ Exists /\ ev.e = "get" /\ Me.k = "live" /\ ev.r = "ok" /\ UNCHANGED <<atm, file>>
       /\ LET s == Me.s[1] IN /\ ev.nc = Len(Me.c) /\ ev.nn = Len(Me.c) /\ ev.ne = s.ne /\ ev.n = s.n /\ ev.nr = s.nr /\ Same(ev.E, s.E) /\ Same(ev.cs, Me.c)
            /\ NEq(NRoundDouble(ev.th), NRoundDouble(s.th[1][2])) /\ NEq(NRoundDouble(ev.ph), NRoundDouble(s.ph[1][3])) /\ NEq(NRoundDouble(ev.dm), NRoundDouble(s.dm[2]))
            /\ \A i \in 1..Len(Me.s) : LET q == Me.s[i] IN Same(ev.each[i], <<NRoundDouble(q.th[1][2]), NRoundDouble(q.ph[1][3]), NRoundDouble(q.dm[2])>>)
Move == /\ l <= Len(TraceLog) /\ ev.e \in {"mvc", "mva"} /\ UNCHANGED file
        /\ IF atm[ev.b].k = "none" \/ (ev.e = "mva" /\ Me.k = "none") THEN ev.r = "none" /\ UNCHANGED atm
           ELSE ev.r = "ok" /\ atm' = IF ev.a = ev.b /\ ev.e = "mva" THEN atm ELSE [atm EXCEPT ![ev.b] = HollowAtm, ![ev.a] = atm[ev.b]]
Save == /\ Exists /\ ev.e = "save" /\ UNCHANGED atm
        /\ LET can == Me.k = "live" /\ Me.ini /\ \A i \in 1..Len(Me.s) : Savable(Me.s[i]) ok == can /\ (ev.over \/ ev.n \notin DOMAIN file) IN
             Answer(ok) /\ file' = IF ok THEN [x \in (DOMAIN file) \cup {ev.n} |-> IF x = ev.n THEN Me ELSE file[x]]
                                   ELSE IF Me.k = "live" /\ Me.ini /\ ev.over THEN [x \in (DOMAIN file) \ {ev.n} |-> file[x]] ELSE file
\* threads are not part of what is stored, nor what single simulations do not store
NewH == /\ Has("newh") /\ UNCHANGED file
        /\ LET ok == ev.n \in DOMAIN file IN Answer(ok) /\ atm' = [atm EXCEPT ![ev.a] = IF ok THEN [file[ev.n] EXCEPT !.thr = 1, !.s = [i \in 1..Len(file[ev.n].s) |-> ReadInto(Empty, file[ev.n].s[i])]] ELSE NoAtm]
TNext == (UnitsE \/ Nobody \/ New \/ Op \/ St \/ Evo \/ Earth \/ Threads \/ Poison \/ NodeE \/ Eval \/ Get \/ Move \/ Save \/ NewH) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
