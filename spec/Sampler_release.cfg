SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 2
  Pushes = 2
  Rounds = 2
  LockPush = TRUE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = FALSE
  Unregister = "once"
  Fill = "before"
INVARIANT Genuine
CHECK_DEADLOCK FALSE
