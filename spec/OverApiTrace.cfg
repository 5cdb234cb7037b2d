SPECIFICATION Spec
INVARIANTS Judge Inv
CHECK_DEADLOCK FALSE
