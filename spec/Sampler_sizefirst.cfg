SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 2
  Pushes = 2
  Rounds = 2
  LockPush = FALSE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "once"
  Fill = "after"
INVARIANT Genuine
CHECK_DEADLOCK FALSE
