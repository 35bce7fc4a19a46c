SPECIFICATION Spec
CONSTANTS Vessels = {v1, v2, v3} MaxSerial = 7
INVARIANTS OnePending WellPaired EitherOrder
PROPERTIES UsedOnce Completes Isolated
CHECK_DEADLOCK FALSE
