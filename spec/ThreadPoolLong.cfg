SPECIFICATION Spec
CONSTANTS
  MaxWorkers = 2
  MaxCalls = 5
  Spurious = TRUE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK WorkerInformed CallerInformed HandOrdered NoneLeft
PROPERTIES Refines
