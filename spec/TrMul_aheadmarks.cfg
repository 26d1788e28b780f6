SPECIFICATION FairSpec
CONSTANTS
  Faulty <- Aheadmarks
  NThreads = 2
  LogL = 1
  LogR = 1
  Pre1 = FALSE
  Pre2 = FALSE
  PackAhead = TRUE
  FinishReleases = TRUE
  CheckAcquires = TRUE
  CasAtomic = TRUE
INVARIANTS ComputeInformed NeverRefused ReturnPossible StatusOK
PROPERTIES Terminates
