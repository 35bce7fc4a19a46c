SPECIFICATION Spec
INVARIANTS Refused Emit
CHECK_DEADLOCK FALSE
