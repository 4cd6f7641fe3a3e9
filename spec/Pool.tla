------------------------------- MODULE Pool -------------------------------
(* Design of the pool as implemented: one mutex, one condition variable, a    *)
(* FIFO of tasks, a stop flag, N workers.  One action per critical section    *)
(* boundary; condition variable waits may wake spuriously.  Refines PoolAPI.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Workers, Clients, Main, TaskIds, NoTask,
          Submits,   \* client -> sequence of tasks it submits
          Child,     \* task -> task it submits from its body (or NoTask)
          Throws,    \* tasks whose body throws
          Barrier,   \* set of tasks that wait for each other in their bodies
          Spurious   \* number of spurious wake-ups allowed

VARIABLES mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, epc, mpc,
          status, outcome, spur, started, onw, rdy, ret, phase
vars == <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, epc, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>

Free == "free"
\* submitters: clients and workers (for tasks submitted from task bodies)
Submitters == Clients \cup Workers
\* what a submitter is currently submitting
SubTask(s) == IF s \in Clients THEN (IF cnext[s] <= Len(Submits[s]) THEN Submits[s][cnext[s]] ELSE NoTask)
              ELSE (IF wtask[s] = NoTask THEN NoTask ELSE Child[wtask[s]])

Init ==
  /\ mutex = Free /\ queue = <<>> /\ stop = FALSE /\ waiting = {} /\ notified = {}
  /\ wpc = [w \in Workers |-> "lock"] /\ wtask = [w \in Workers |-> NoTask]
  /\ cpc = [c \in Clients |-> "idle"] /\ cnext = [c \in Clients |-> 1]
  /\ epc = [s \in Submitters |-> "none"] /\ mpc = "waitclients"
  /\ status = [t \in TaskIds |-> "new"] /\ outcome = [t \in TaskIds |-> "none"]
  /\ spur = Spurious /\ started = [t \in TaskIds |-> 0] /\ onw = [t \in TaskIds |-> "none"]
  /\ rdy = {} /\ ret = {} /\ phase = "alive"

---------------------------------------------------------------------------
\* enqueue, called by submitter s
EnqCall(s) ==
  /\ epc[s] = "none" /\ SubTask(s) # NoTask /\ status[SubTask(s)] = "new"
  /\ IF s \in Clients THEN TRUE ELSE wpc[s] = "body"
  /\ epc' = [epc EXCEPT ![s] = "lock"] /\ status' = [status EXCEPT ![SubTask(s)] = "calling"]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, mpc, outcome, spur, started, onw, rdy, ret, phase>>
EnqLock(s) ==
  /\ epc[s] = "lock" /\ mutex = Free
  /\ mutex' = s /\ epc' = [epc EXCEPT ![s] = "locked"]
  /\ UNCHANGED <<queue, stop, waiting, notified, wpc, wtask, cpc, cnext, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>
EnqPush(s) ==
  /\ epc[s] = "locked" /\ ~stop
  /\ queue' = Append(queue, SubTask(s)) /\ status' = [status EXCEPT ![SubTask(s)] = "accepted"]
  /\ mutex' = Free /\ epc' = [epc EXCEPT ![s] = "notify"]
  /\ UNCHANGED <<stop, waiting, notified, wpc, wtask, cpc, cnext, mpc, outcome, spur, started, onw, rdy, ret, phase>>
EnqRefuse(s) ==
  /\ epc[s] = "locked" /\ stop
  /\ status' = [status EXCEPT ![SubTask(s)] = "refused"] /\ mutex' = Free /\ epc' = [epc EXCEPT ![s] = "done"]
  /\ UNCHANGED <<queue, stop, waiting, notified, wpc, wtask, cpc, cnext, mpc, outcome, spur, started, onw, rdy, ret, phase>>
EnqNotify(s) ==
  /\ epc[s] = "notify"
  /\ IF waiting \ notified = {} THEN UNCHANGED notified
     ELSE \E w \in waiting \ notified : notified' = notified \cup {w}
  /\ epc' = [epc EXCEPT ![s] = "return"]
  /\ UNCHANGED <<mutex, queue, stop, waiting, wpc, wtask, cpc, cnext, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>
EnqRet(s) ==
  /\ epc[s] = "return"
  /\ ret' = ret \cup {SubTask(s)} /\ epc' = [epc EXCEPT ![s] = "done"]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, mpc, status, outcome, spur, started, onw, rdy, phase>>
CNext(c) ==
  /\ c \in Clients /\ epc[c] = "done" /\ cnext' = [cnext EXCEPT ![c] = @ + 1] /\ epc' = [epc EXCEPT ![c] = "none"]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>

\* worker loop
WLock(w) ==
  /\ wpc[w] = "lock" /\ mutex = Free
  /\ mutex' = w /\ wpc' = [wpc EXCEPT ![w] = "check"]
  /\ UNCHANGED <<queue, stop, waiting, notified, wtask, cpc, cnext, epc, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>
WWait(w) ==
  /\ wpc[w] = "check" /\ ~stop /\ queue = <<>>
  /\ mutex' = Free /\ waiting' = waiting \cup {w} /\ wpc' = [wpc EXCEPT ![w] = "waiting"]
  /\ UNCHANGED <<queue, stop, notified, wtask, cpc, cnext, epc, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>
WWake(w) ==
  /\ wpc[w] = "waiting" /\ (w \in notified \/ spur > 0)
  /\ spur' = IF w \in notified THEN spur ELSE spur - 1
  /\ waiting' = waiting \ {w} /\ notified' = notified \ {w} /\ wpc' = [wpc EXCEPT ![w] = "lock"]
  /\ UNCHANGED <<mutex, queue, stop, wtask, cpc, cnext, epc, mpc, status, outcome, started, onw, rdy, ret, phase>>
WPop(w) ==
  /\ wpc[w] = "check" /\ queue # <<>>
  /\ wtask' = [wtask EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
  /\ status' = [status EXCEPT ![Head(queue)] = "popped"]
  /\ mutex' = Free /\ wpc' = [wpc EXCEPT ![w] = "begin"]
  /\ UNCHANGED <<stop, waiting, notified, cpc, cnext, epc, mpc, outcome, spur, started, onw, rdy, ret, phase>>
WExit(w) ==
  /\ wpc[w] = "check" /\ queue = <<>> /\ stop
  /\ mutex' = Free /\ wpc' = [wpc EXCEPT ![w] = "exited"]
  /\ UNCHANGED <<queue, stop, waiting, notified, wtask, cpc, cnext, epc, mpc, status, outcome, spur, started, onw, rdy, ret, phase>>
WBegin(w) ==
  /\ wpc[w] = "begin"
  /\ wpc' = [wpc EXCEPT ![w] = "body"] /\ status' = [status EXCEPT ![wtask[w]] = "running"]
  /\ started' = [started EXCEPT ![wtask[w]] = @ + 1] /\ onw' = [onw EXCEPT ![wtask[w]] = w]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wtask, cpc, cnext, epc, mpc, outcome, spur, rdy, ret, phase>>
BodyMayEnd(w) ==
  /\ Child[wtask[w]] # NoTask => epc[w] = "done"
  /\ wtask[w] \in Barrier => \A t \in Barrier : started[t] > 0
WEnd(w) ==
  /\ wpc[w] = "body" /\ BodyMayEnd(w)
  /\ status' = [status EXCEPT ![wtask[w]] = "done"]
  /\ outcome' = [outcome EXCEPT ![wtask[w]] = IF wtask[w] \in Throws THEN "exc" ELSE "val"]
  /\ wpc' = [wpc EXCEPT ![w] = "publish"] /\ epc' = [epc EXCEPT ![w] = "none"]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wtask, cpc, cnext, mpc, spur, started, onw, rdy, ret, phase>>
WPublish(w) ==
  /\ wpc[w] = "publish"
  /\ rdy' = rdy \cup {wtask[w]} /\ wpc' = [wpc EXCEPT ![w] = "lock"] /\ wtask' = [wtask EXCEPT ![w] = NoTask]
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, cpc, cnext, epc, mpc, status, outcome, spur, started, onw, ret, phase>>

\* destructor
DCall ==
  /\ mpc = "waitclients" /\ \A c \in Clients : cnext[c] > Len(Submits[c])
  /\ mpc' = "lock" /\ phase' = "closing"
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, epc, status, outcome, spur, started, onw, rdy, ret>>
DStop ==
  /\ mpc = "lock" /\ mutex = Free
  /\ stop' = TRUE /\ mpc' = "notify"
  /\ UNCHANGED <<mutex, queue, waiting, notified, wpc, wtask, cpc, cnext, epc, status, outcome, spur, started, onw, rdy, ret, phase>>
DNotify ==
  /\ mpc = "notify" /\ notified' = waiting /\ mpc' = "join"
  /\ UNCHANGED <<mutex, queue, stop, waiting, wpc, wtask, cpc, cnext, epc, status, outcome, spur, started, onw, rdy, ret, phase>>
DRet ==
  /\ mpc = "join" /\ \A w \in Workers : wpc[w] = "exited"
  /\ mpc' = "gone" /\ phase' = "closed"
  /\ UNCHANGED <<mutex, queue, stop, waiting, notified, wpc, wtask, cpc, cnext, epc, status, outcome, spur, started, onw, rdy, ret>>

Done == mpc = "gone" /\ UNCHANGED vars
WStep(w) == WLock(w) \/ WWait(w) \/ WWake(w) \/ WPop(w) \/ WExit(w) \/ WBegin(w) \/ WEnd(w) \/ WPublish(w)
SStep(s) == EnqCall(s) \/ EnqLock(s) \/ EnqPush(s) \/ EnqRefuse(s) \/ EnqNotify(s) \/ EnqRet(s)
DStep == DCall \/ DStop \/ DNotify \/ DRet
Next == (\E w \in Workers : WStep(w)) \/ (\E s \in Submitters : SStep(s)) \/ (\E c \in Clients : CNext(c)) \/ DStep \/ Done

\* weak fairness of every thread, with strong fairness of lock acquisition
Fairness ==
  /\ \A w \in Workers : WF_vars(WStep(w)) /\ SF_vars(WLock(w))
  /\ \A s \in Submitters : WF_vars(SStep(s)) /\ SF_vars(EnqLock(s))
  /\ \A c \in Clients : WF_vars(CNext(c))
  /\ WF_vars(DStep) /\ SF_vars(DStop)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

---------------------------------------------------------------------------
MutexOwner == mutex = Free \/ (mutex \in Workers /\ wpc[mutex] = "check") \/ (mutex \in Submitters /\ epc[mutex] = "locked")
NoLostTask == phase = "closed" => \A t \in TaskIds : status[t] \in {"new", "done", "refused"} /\ (status[t] = "done" => t \in rdy)
\* work waiting while every worker sleeps un-notified never persists (checked as liveness)
ReturnsEventually == <>(mpc = "gone")
EveryAcceptedRuns == \A t \in TaskIds : (status[t] = "accepted") ~> (status[t] = "done" /\ t \in rdy)

\* refinement of the client-visible specification
API == INSTANCE PoolAPI WITH
  Tasks <- TaskIds, Threads <- Workers \cup Clients \cup {Main}, MaxSize <- Cardinality(Workers), NoThread <- "none",
  size <- Cardinality(Workers), phase <- phase, stopped <- stop, clients <- Clients \cup {Main},
  st <- status, outc <- outcome, queue <- queue, on <- onw, returned <- ret, ready <- rdy, starts <- started
\* the refinement starts from an already constructed pool
APIStep == [][API!Next]_(API!vars)

APITypeOK == API!TypeOK
APIExactlyOnce == API!ExactlyOnce
APIRefused == API!RefusedNeverRuns
APIReady == API!ReadyAfterDone
APIDrained == API!Drained
APINotTooParallel == API!NotTooParallel
APIOnePerWorker == API!OneTaskPerWorker
APIFifo == API!Fifo
===========================================================================
