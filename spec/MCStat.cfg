SPECIFICATION Spec
CONSTANTS Vessels = {v1, v2} MaxSerial = 6
INVARIANTS OnePending WellPaired EitherOrder
PROPERTIES UsedOnce Completes Isolated
CHECK_DEADLOCK FALSE
