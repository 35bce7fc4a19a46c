SPECIFICATION Spec
INVARIANTS Arrival BaseClock TimeOfDay Emit
CHECK_DEADLOCK FALSE
