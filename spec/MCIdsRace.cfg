SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  PerThread = 2
  Atomic = FALSE
  Wrap = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
