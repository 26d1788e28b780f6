SPECIFICATION Live
CONSTANTS
  Threads = {1, 2}
  Depth = 2
  Pushes = 2
  Rounds = 1
  LockPush = TRUE
  LockPop = TRUE
  LockSample = TRUE
  HoldRegistry = TRUE
  Unregister = "once"
  Fill = "before"
PROPERTY Stops
CHECK_DEADLOCK FALSE
