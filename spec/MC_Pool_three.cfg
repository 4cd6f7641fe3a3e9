SPECIFICATION FairSpec
CONSTANTS
  Workers = {"w1","w2","w3"}
  Clients = {"c1"}
  Main = "m"
  TaskIds <- MCTasks
  NoTask = "-"
  Submits <- MCSubmits3
  Child <- NoChild
  Throws = {"b"}
  Barrier = {"a","b","c"}
  Spurious = 1
INVARIANTS MutexOwner NoLostTask
  APITypeOK APIExactlyOnce APIRefused APIReady APIDrained APINotTooParallel APIOnePerWorker
PROPERTIES APIStep APIFifo ReturnsEventually EveryAcceptedRuns
CHECK_DEADLOCK TRUE
