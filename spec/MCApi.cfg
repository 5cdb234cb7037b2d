SPECIFICATION Spec
INVARIANTS Inv Emit
PROPERTIES Immutable OneNew
CHECK_DEADLOCK FALSE
