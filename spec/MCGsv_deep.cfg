SPECIFICATION Spec
CONSTANTS Talkers = {gp, gl} Counts = {1, 2, 3} MaxSerial = 6
INVARIANTS Exact Commute AnyOrder
PROPERTIES Reported Isolated
CHECK_DEADLOCK FALSE
