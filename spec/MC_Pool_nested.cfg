SPECIFICATION FairSpec
CONSTANTS
  Workers = {"w1","w2"}
  Clients = {"c1"}
  Main = "m"
  TaskIds <- MCTasks
  NoTask = "-"
  Submits <- MCSubmits1
  Child <- MCChild1
  Throws = {"b"}
  Barrier = {}
  Spurious = 1
INVARIANTS MutexOwner NoLostTask
  APITypeOK APIExactlyOnce APIRefused APIReady APIDrained APINotTooParallel APIOnePerWorker
PROPERTIES APIStep APIFifo ReturnsEventually EveryAcceptedRuns
CHECK_DEADLOCK TRUE
