SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  LogL = 2
  LogR = 1
  Pre1 = FALSE
  Pre2 = FALSE
  PackAhead = TRUE
  FinishReleases = TRUE
  CheckAcquires = TRUE
  CasAtomic = TRUE
INVARIANTS ComputeInformed NeverRefused ReturnPossible StatusOK

