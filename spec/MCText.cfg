SPECIFICATION Spec
INVARIANTS WellFormed AsWritten PrefixWhenCut Extended Emit
CHECK_DEADLOCK FALSE
