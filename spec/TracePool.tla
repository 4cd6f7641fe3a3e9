----------------------------- MODULE TracePool -----------------------------
(* Validates recorded pool executions against PoolAPI.  Each line of the      *)
(* trace is one client-visible event; Push, Pop and SetStop are silent and    *)
(* taken only when a later event needs them (delaying them never disables     *)
(* anything).  "reset" starts a new execution.  Events of abnormal ends       *)
(* (deadlock, livelock, crash, hang) have no action: they are rejected.       *)
EXTENDS PoolAPI, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e
Next1 == l' = l + 1

TInit == Init /\ l = 1

Reset == /\ Is("reset") /\ Next1
         /\ size' = 0 /\ phase' = "none" /\ stopped' = FALSE /\ clients' = {}
         /\ st' = [t \in Tasks |-> "new"] /\ outc' = [t \in Tasks |-> "none"] /\ queue' = <<>>
         /\ on' = [t \in Tasks |-> NoThread] /\ returned' = {} /\ ready' = {} /\ starts' = [t \in Tasks |-> 0]

\* a finished execution must have been fully drained and every result delivered
Complete == phase = "none" \/ (phase = "closed" /\ \A t \in Tasks : st[t] = "done" => t \in ready)

Visible ==
  \/ (Complete /\ Reset)
  \/ (Is("new") /\ New(ev.n, 0) /\ Next1)
  \/ (Is("client") /\ Client(ev.c) /\ Next1)
  \/ (Is("enqcall") /\ EnqCall(ev.c, ev.t) /\ Next1)
  \/ (Is("enqret") /\ EnqRet(ev.c, ev.t) /\ Next1)
  \/ (Is("enqthrow") /\ EnqThrow(ev.c, ev.t) /\ Next1)
  \/ (Is("start") /\ Start(ev.c, ev.t) /\ Next1)
  \/ (Is("end") /\ ev.o \in Outcomes /\ End(ev.c, ev.t, ev.o) /\ Next1)
  \/ (Is("ready") /\ Ready(ev.t) /\ Next1)
  \/ (Is("get") /\ Get(ev.t, ev.o) /\ Next1)
  \/ (Is("dtorcall") /\ DtorCall(ev.c) /\ Next1)
  \/ (Is("joining") /\ Joining /\ Next1)
  \/ (Is("dtorret") /\ DtorRet(ev.c) /\ Next1)
  \/ (Is("eof") /\ Complete /\ Next1 /\ UNCHANGED vars)

Silent ==
  /\ l <= Len(Trace) /\ UNCHANGED l
  /\ \/ (ev.e \in {"enqret", "start", "enqthrow", "joining"} /\ \E t \in Tasks : Push(t))
     \/ (ev.e = "start" /\ Pop)
     \/ (ev.e \in {"enqthrow", "joining", "dtorret"} /\ SetStop)

TNext == Visible \/ Silent
TSpec == TInit /\ [][TNext]_tvars

Props == ExactlyOnce /\ RefusedNeverRuns /\ ReadyAfterDone /\ Drained /\ NotTooParallel /\ OneTaskPerWorker
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(Trace) + 1 THEN PrintT(<<"ACCEPT", Len(Trace)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
============================================================================
