------------------------------ MODULE PoolAPI ------------------------------
(* Client-visible behaviour of the task pool (include/nuSQuIDS/ThreadPool.h): *)
(* what clients, task bodies and the destructor may observe, in any           *)
(* interleaving.  Push, SetStop and Pop are the internal linearisation points *)
(* of submission, shutdown and task start.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Tasks, Threads, MaxSize, NoThread

VARIABLES size,     \* number of workers, 0 before construction
          phase,    \* "none" | "alive" | "closing" | "closed"
          stopped,  \* shutdown has taken effect
          clients,  \* threads known to belong to the client
          st,       \* task -> "new" | "calling" | "accepted" | "popped" | "running" | "done" | "refused"
          outc,     \* task -> "none" | "val" | "exc": how the body ended
          queue,    \* accepted tasks not yet handed to a worker, oldest first
          on,       \* task -> thread that runs / ran it (or 0-record "none")
          returned, \* tasks whose submission call has returned
          ready,    \* tasks whose future has been seen ready
          starts    \* history: task -> number of times its body was entered

vars == <<size, phase, stopped, clients, st, outc, queue, on, returned, ready, starts>>


Busy == {t \in Tasks : st[t] \in {"popped", "running"}}
Accepted(t) == st[t] \in {"accepted", "popped", "running", "done"}

TypeOK ==
  /\ size \in 0..MaxSize /\ phase \in {"none", "alive", "closing", "closed"} /\ stopped \in BOOLEAN
  /\ clients \subseteq Threads
  /\ st \in [Tasks -> {"new", "calling", "accepted", "popped", "running", "done", "refused"}]
  /\ outc \in [Tasks -> {"none", "val", "exc"}]
  /\ queue \in Seq(Tasks) /\ on \in [Tasks -> Threads \cup {NoThread}]
  /\ returned \subseteq Tasks /\ ready \subseteq Tasks /\ starts \in [Tasks -> Nat]

Init ==
  /\ size = 0 /\ phase = "none" /\ stopped = FALSE /\ clients = {}
  /\ st = [t \in Tasks |-> "new"] /\ outc = [t \in Tasks |-> "none"] /\ queue = <<>>
  /\ on = [t \in Tasks |-> NoThread] /\ returned = {} /\ ready = {} /\ starts = [t \in Tasks |-> 0]

New(n, c) ==
  /\ phase = "none" /\ n >= 1
  /\ size' = n /\ phase' = "alive" /\ clients' = clients \cup {c}
  /\ UNCHANGED <<stopped, st, outc, queue, on, returned, ready, starts>>

Client(c) ==
  /\ phase = "alive" /\ \A t \in Tasks : on[t] # c
  /\ clients' = clients \cup {c}
  /\ UNCHANGED <<size, phase, stopped, st, outc, queue, on, returned, ready, starts>>

RunsSomething(c) == \E t \in Tasks : st[t] = "running" /\ on[t] = c

\* submissions come from clients or from running tasks
EnqCall(c, t) ==
  /\ st[t] = "new" /\ phase \in {"alive", "closing"}
  /\ (c \in clients /\ phase = "alive") \/ RunsSomething(c)
  /\ st' = [st EXCEPT ![t] = "calling"]
  /\ UNCHANGED <<size, phase, stopped, clients, outc, queue, on, returned, ready, starts>>

Push(t) ==
  /\ st[t] = "calling" /\ ~stopped
  /\ st' = [st EXCEPT ![t] = "accepted"] /\ queue' = Append(queue, t)
  /\ UNCHANGED <<size, phase, stopped, clients, outc, on, returned, ready, starts>>

EnqRet(c, t) ==
  /\ Accepted(t) /\ t \notin returned
  /\ returned' = returned \cup {t}
  /\ UNCHANGED <<size, phase, stopped, clients, st, outc, queue, on, ready, starts>>

EnqThrow(c, t) ==
  /\ st[t] = "calling" /\ stopped
  /\ st' = [st EXCEPT ![t] = "refused"]
  /\ UNCHANGED <<size, phase, stopped, clients, outc, queue, on, returned, ready, starts>>

\* a free worker takes the oldest accepted task
Pop ==
  /\ queue # <<>> /\ Cardinality(Busy) < size
  /\ st' = [st EXCEPT ![Head(queue)] = "popped"] /\ queue' = Tail(queue)
  /\ UNCHANGED <<size, phase, stopped, clients, outc, on, returned, ready, starts>>

Start(c, t) ==
  /\ st[t] = "popped" /\ c \notin clients /\ ~RunsSomething(c) /\ phase # "closed"
  /\ st' = [st EXCEPT ![t] = "running"] /\ on' = [on EXCEPT ![t] = c]
  /\ starts' = [starts EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<size, phase, stopped, clients, outc, queue, returned, ready>>

End(c, t, o) ==
  /\ st[t] = "running" /\ on[t] = c
  /\ st' = [st EXCEPT ![t] = "done"] /\ outc' = [outc EXCEPT ![t] = o]
  /\ UNCHANGED <<size, phase, stopped, clients, queue, on, returned, ready, starts>>

Ready(t) ==
  /\ st[t] = "done"
  /\ ready' = ready \cup {t}
  /\ UNCHANGED <<size, phase, stopped, clients, st, outc, queue, on, returned, starts>>

\* retrieving the result: only after the body ended, exactly its outcome
Get(t, o) ==
  /\ st[t] = "done" /\ t \in returned /\ o = outc[t]
  /\ ready' = ready \cup {t}
  /\ UNCHANGED <<size, phase, stopped, clients, st, outc, queue, on, returned, starts>>

DtorCall(c) ==
  /\ phase = "alive" /\ c \in clients
  /\ phase' = "closing"
  /\ UNCHANGED <<size, stopped, clients, st, outc, queue, on, returned, ready, starts>>

SetStop ==
  /\ phase = "closing" /\ ~stopped
  /\ stopped' = TRUE
  /\ UNCHANGED <<size, phase, clients, st, outc, queue, on, returned, ready, starts>>

\* the destructor is waiting for its workers: shutdown must be in effect
Joining ==
  /\ phase = "closing" /\ stopped
  /\ UNCHANGED vars

DtorRet(c) ==
  /\ phase = "closing" /\ stopped /\ queue = <<>> /\ Busy = {}
  /\ \A t \in Tasks : st[t] # "calling"
  /\ phase' = "closed"
  /\ UNCHANGED <<size, stopped, clients, st, outc, queue, on, returned, ready, starts>>

Outcomes == {"val", "exc"}
Next ==
  \/ \E n \in 1..MaxSize, c \in Threads : New(n, c)
  \/ \E c \in Threads : Client(c) \/ DtorCall(c) \/ DtorRet(c)
  \/ \E c \in Threads, t \in Tasks : EnqCall(c, t) \/ EnqRet(c, t) \/ EnqThrow(c, t) \/ Start(c, t)
  \/ \E c \in Threads, t \in Tasks, o \in Outcomes : End(c, t, o)
  \/ \E t \in Tasks : Push(t) \/ Ready(t) \/ (\E o \in Outcomes : Get(t, o))
  \/ Pop \/ SetStop \/ Joining

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* Properties P01/P02 at this level
ExactlyOnce == \A t \in Tasks : starts[t] <= 1 /\ (st[t] = "done" <=> (starts[t] = 1 /\ outc[t] # "none"))
RefusedNeverRuns == \A t \in Tasks : st[t] = "refused" => starts[t] = 0
ReadyAfterDone == \A t \in ready : st[t] = "done" /\ outc[t] # "none"
Drained == phase = "closed" => \A t \in Tasks : st[t] \in {"new", "done", "refused"}
NotTooParallel == Cardinality(Busy) <= size
OneTaskPerWorker == \A t, u \in Tasks : (t # u /\ st[t] = "running" /\ st[u] = "running") => on[t] # on[u]
\* accepted order is start (pop) order
Fifo == [][\A t \in Tasks : (st[t] = "accepted" /\ st'[t] = "popped") => Head(queue) = t]_vars
============================================================================
