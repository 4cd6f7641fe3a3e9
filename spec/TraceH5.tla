------------------------------ MODULE TraceH5 ------------------------------
(* Recorded histories of the HDF5 helpers against H5Store.  With Ledger, outcomes and the library's     *)
(* table of open objects are judged (each call leaves exactly as many open as before); otherwise        *)
(* outcomes and contents.                                                                             *)
EXTENDS H5Store, Json, IOUtils
CONSTANT Ledger
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
At(e) == l <= Len(TraceLog) /\ ev.e = e /\ ev.r \in {"ok", "refused"} /\ (Ledger => \A i \in DOMAIN ev.ids : ev.ids[i] = 0)
Key == <<ev.f, ev.p>>
Ok(b) == ev.r = (IF b THEN "ok" ELSE "refused")
Same(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : NEq(s[i], u[i])
CreateF == At("create") /\ Create(ev.f)
Reopen == At("reopen") /\ UNCHANGED vars0
MkGroup == At("group") /\ CanAdd(Key, ev.par) /\ Add(Key, Group)
MkLink == At("link") /\ CanAdd(Key, ev.par) /\ Add(Key, Link)
Write == /\ At("write") /\ Ok(CanAdd(Key, ev.par))
         /\ IF CanAdd(Key, ev.par) THEN Add(Key, Data(ev.dims, ev.dst, IF ev.big THEN ev.data ELSE ConvAll(ev.dst, ev.data))) ELSE UNCHANGED vars0
\* big arrays are compared by a digest of all their elements
Contents == LET o == objs[Key] IN ev.dims = o.dims /\ IF ev.big THEN ev.data = o.data ELSE Same(ConvAll(ev.t, o.data), ev.data)
Read == /\ At("read") /\ UNCHANGED vars0 /\ Ok(CanRead(Key, ev.rank))
        /\ (ev.r = "ok" => Ledger \/ Contents) = TRUE
\* a read whose array cannot be allocated, or of something that is not numeric, fails cleanly
ReadFail == At("readfail") /\ UNCHANGED vars0 /\ ev.r = "refused"
Exists == At("exists") /\ UNCHANGED vars0 /\ (ev.r = "ok" /\ ev.v = IsObj(Key)) = TRUE
WAttr == /\ At("wattr") /\ Ok(CanAttr(ev.f, ev.p, ev.a))
         /\ IF CanAttr(ev.f, ev.p, ev.a) THEN AddAttr(ev.f, ev.p, ev.a, ev.t, ev.v) ELSE UNCHANGED vars0
RAttr == /\ At("rattr") /\ UNCHANGED vars0 /\ Ok(CanReadAttr(ev.f, ev.p, ev.a, ev.t))
         /\ (ev.r = "ok" => (Ledger \/ LET v == attrs[<<ev.f, ev.p, ev.a>>][2] IN IF ev.t = "string" THEN v = ev.v ELSE NEq(Conv(ev.t, v), ev.v))) = TRUE
TInit == l = 1 /\ SInit
TNext == (CreateF \/ Reopen \/ MkGroup \/ MkLink \/ Write \/ Read \/ ReadFail \/ Exists \/ WAttr \/ RAttr) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, objs, attrs>>
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
