----------------------------- MODULE TraceTau -----------------------------
(* Recorded histories of TauDecaySpectra objects against TauDecay. *)
EXTENDS TauDecay, TLC, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e /\ ev.r = "ok"
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
\* rounding: a few units in the last place of the largest term
Tol(z) == NMul("4e-15", NMul(6, NAdd(1, NAdd(SQR(z), Cube(z)))))
\* so close to a kinematic end point that rounding of z decides
Edge(k, z) == k \notin {"lepton", "all"} /\ NLe(NAbs(NSub(z, EndPoint(k))), "1e-15")
AnyEdge(z) == \E k \in Channels : Edge(k, z)
Chan == /\ Is("chan") /\ UNCHANGED grid
        /\ LET z == NDiv(ev.b, ev.a) IN
             IF Edge(ev.k, z) THEN NEq(ev.v, 0) \/ Close(ev.v, Channel(ev.k, NMul(EndPoint(ev.k), "0.9999999999999999")), NMul(4, Tol(z)))
             ELSE (ev.k = "all" /\ AnyEdge(z)) \/ Close(ev.v, Channel(ev.k, z), Tol(z))
\* read one entry of one table of a slot
Read == /\ l <= Len(TraceLog) /\ ev.e = "read" /\ UNCHANGED grid
        /\ IF InRange(ev.s, ev.i, ev.j, ev.t)
           THEN /\ ev.r = "ok"
                /\ LET g == grid[ev.s] e1 == GeV(g[ev.i + 1]) e2 == GeV(g[ev.j + 1]) z == NDiv(e2, e1) IN
                     (ev.k \in {"enuall", "eleall"} /\ AnyEdge(z)) \/ Close(ev.v, Entry(ev.k, g, ev.i, ev.j), NMul(NMul(2, Tol(z)), Factor(ev.k, e1, e2)))
           ELSE ev.r = "refused"
Br == Is("br") /\ UNCHANGED grid /\ NEq(NRoundDouble(BrLepton), ev.lep) /\ NEq(NRoundDouble(BrHadron), ev.had)
InitG == Is("init") /\ Fill(ev.s, ev.g)
Copy == Is("copy") /\ CopyTo(ev.s, ev.d)
Move == Is("move") /\ MoveTo(ev.s, ev.d)
Fresh == Is("fresh") /\ Clear(ev.s)
TInit == l = 1 /\ TInit0
TNext == (Chan \/ Read \/ Br \/ InitG \/ Copy \/ Move \/ Fresh) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, grid>>
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
