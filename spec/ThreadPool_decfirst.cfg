SPECIFICATION FairSpec
CONSTANTS
  Faulty <- Decfirst
  MaxWorkers = 2
  MaxCalls = 2
  Spurious = FALSE
  Spins = 0
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
INVARIANTS TypeOK NoneLeft
PROPERTIES CallsReturn Terminates
