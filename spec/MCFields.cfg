SPECIFICATION Spec
INVARIANTS ReadsBack Disjoint InsideMessage MeaningOk Emit
CHECK_DEADLOCK FALSE
