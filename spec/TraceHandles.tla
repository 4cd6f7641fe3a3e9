---------------------------- MODULE TraceHandles ----------------------------
(* Recorded histories of H5Handle and H5File objects against Handles: after every operation the          *)
(* identifier each wrapper reports, and the identifiers closed during it, are compared.                *)
EXTENDS Handles, TLC, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
AllIds == 1..80
VARIABLE l
ev == TraceLog[l]
At(e) == l <= Len(TraceLog) /\ ev.e = e /\ ev.errs = 0
View(w) == IF w[1] = "own" THEN w[2] ELSE IF w[1] = "empty" THEN -1 ELSE -2
Seen == \A s \in Slots : ev.own[s] = View(own'[s])
Shuts == ev.closed = (IF \E i \in Ids : closed'[i] # closed[i] THEN <<CHOOSE i \in Ids : closed'[i] # closed[i]>> ELSE <<>>)
Mk == At("new") /\ ev.r = "ok" /\ New(ev.d, ev.id)
Bad == At("bad") /\ ev.r = "refused" /\ Refused
Def == At("empty") /\ ev.r = "ok" /\ NewEmpty(ev.d)
MvC == At("mc") /\ ev.r = "ok" /\ MoveNew(ev.s, ev.d)
MvA == At("ma") /\ ev.r = "ok" /\ (AssignSwap(ev.s, ev.d) \/ AssignShut(ev.s, ev.d))
Del == At("del") /\ ev.r = "ok" /\ Destroy(ev.d)
TInit == l = 1 /\ HInit
TNext == (Mk \/ Bad \/ Def \/ MvC \/ MvA \/ Del) /\ Seen /\ Shuts /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, hvars>>
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
