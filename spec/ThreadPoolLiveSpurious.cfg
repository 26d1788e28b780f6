SPECIFICATION StrongFairSpec
CONSTANTS
  MaxWorkers = 2
  MaxCalls = 1
  Spurious = TRUE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK NoneLeft
PROPERTIES CallsReturn Terminates
