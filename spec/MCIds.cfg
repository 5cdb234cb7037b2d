SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2", "t3"}
  PerThread = 3
  Atomic = TRUE
  Wrap = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
