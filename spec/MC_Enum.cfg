SPECIFICATION Spec
CONSTANTS MaxVals = 3 MaxRels = 2
INVARIANTS Counted Emit
CHECK_DEADLOCK FALSE
