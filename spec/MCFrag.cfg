SPECIFICATION Spec
CONSTANTS Keys = {k1, k2} MaxSerial = 6
INVARIANTS OnePending WellPaired Commute EitherOrder
PROPERTIES UsedOnce LatestWins Isolated
CHECK_DEADLOCK FALSE
