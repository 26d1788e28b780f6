SPECIFICATION StrongFairSpec
CONSTANTS
  MaxWorkers = 2
  MaxCalls = 2
  Spurious = TRUE
  Spins = 1
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK WorkerInformed CallerInformed HandOrdered NoneLeft
PROPERTIES Refines CallsReturn Terminates
