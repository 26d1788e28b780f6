SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Depth = 2
  Pushes = 1
  Rounds = 2
  LockPush = TRUE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "split"
  Fill = "before"
INVARIANT Genuine
INVARIANT Alive
INVARIANT Known
CHECK_DEADLOCK FALSE
