SPECIFICATION FairSpec
CONSTANTS
  Workers = {"w1","w2"}
  Clients = {"c1","c2"}
  Main = "m"
  TaskIds <- MCTasks
  NoTask = "-"
  Submits <- MCSubmits2
  Child <- MCChild2
  Throws = {"b"}
  Barrier = {}
  Spurious = 1
INVARIANTS MutexOwner NoLostTask
  APITypeOK APIExactlyOnce APIRefused APIReady APIDrained APINotTooParallel APIOnePerWorker
PROPERTIES APIStep APIFifo ReturnsEventually EveryAcceptedRuns
CHECK_DEADLOCK TRUE
