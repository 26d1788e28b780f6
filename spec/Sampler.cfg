SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Depth = 2
  Pushes = 2
  Rounds = 2
  LockPush = TRUE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "once"
  Fill = "before"
INVARIANT Genuine
INVARIANT Alive
INVARIANT Known
INVARIANT Exclusive
CHECK_DEADLOCK FALSE
