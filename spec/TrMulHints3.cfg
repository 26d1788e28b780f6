SPECIFICATION HSpec
CONSTANTS
  NThreads = 3
  LogL = 2
  LogR = 2
  Pre1 = FALSE
  Pre2 = FALSE
  PackAhead = TRUE
  FinishReleases = TRUE
  CheckAcquires = TRUE
  CasAtomic = TRUE
CHECK_DEADLOCK FALSE
