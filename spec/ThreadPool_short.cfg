SPECIFICATION Spec
CONSTANTS
  Faulty <- Short
  MaxWorkers = 2
  MaxCalls = 3
  Spurious = TRUE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK WorkerInformed CallerInformed HandOrdered NoneLeft
PROPERTIES Refines
