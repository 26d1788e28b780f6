SPECIFICATION FairSpec
CONSTANTS
  NThreads = 2
  LogL = 1
  LogR = 1
  Pre1 = FALSE
  Pre2 = FALSE
  PackAhead = FALSE
  FinishReleases = TRUE
  CheckAcquires = TRUE
  CasAtomic = TRUE
INVARIANTS ComputeInformed NeverRefused ReturnPossible StatusOK
PROPERTIES Terminates
