SPECIFICATION Spec
CONSTANTS Keys = {k1, k2, k3} MaxSerial = 7
INVARIANTS OnePending WellPaired Commute EitherOrder
PROPERTIES UsedOnce LatestWins Isolated
CHECK_DEADLOCK FALSE
