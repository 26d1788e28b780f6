SPECIFICATION HSpec
CONSTANTS
  MaxWorkers = 3
  MaxCalls = 3
  Spurious = FALSE
  Spins = 1
  NotifyLocks = TRUE
  RecheckLocked = TRUE
  CountReleases = TRUE
  StateReleases = TRUE
CHECK_DEADLOCK FALSE
