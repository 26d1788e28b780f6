SPECIFICATION Spec
CONSTANTS
  MaxWorkers = 3
  MaxCalls = 1
  Spurious = FALSE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK WorkerInformed CallerInformed HandOrdered NoneLeft
PROPERTIES Refines
