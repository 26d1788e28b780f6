SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Depth = 3
  Pushes = 3
  Rounds = 3
  LockPush = TRUE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "once"
  Fill = "before"
INVARIANT Genuine
INVARIANT Alive
INVARIANT Known
INVARIANT Exclusive
CHECK_DEADLOCK FALSE
