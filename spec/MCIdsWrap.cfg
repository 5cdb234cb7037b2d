SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  PerThread = 2
  Atomic = TRUE
  Wrap = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
