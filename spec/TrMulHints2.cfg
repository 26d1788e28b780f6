SPECIFICATION HSpec
CONSTANTS
  NThreads = 2
  LogL = 1
  LogR = 1
  Pre1 = FALSE
  Pre2 = FALSE
  PackAhead = TRUE
  FinishReleases = TRUE
  CheckAcquires = TRUE
  CasAtomic = TRUE
CHECK_DEADLOCK FALSE
