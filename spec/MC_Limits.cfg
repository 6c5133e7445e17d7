SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
INVARIANTS Quiet Paired Back Emit
CHECK_DEADLOCK FALSE
