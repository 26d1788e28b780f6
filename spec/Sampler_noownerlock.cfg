SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 2
  Pushes = 2
  Rounds = 2
  LockPush = FALSE
  LockPop = FALSE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "once"
  Fill = "before"
INVARIANT Genuine
CHECK_DEADLOCK FALSE
