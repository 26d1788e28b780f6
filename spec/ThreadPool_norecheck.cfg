SPECIFICATION FairSpec
CONSTANTS
  MaxWorkers = 2
  MaxCalls = 2
  Spurious = FALSE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = FALSE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK NoneLeft
PROPERTIES CallsReturn Terminates
