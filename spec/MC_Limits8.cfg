SPECIFICATION Spec
CONSTANTS
 MaxLen = 8
INVARIANTS Quiet Paired Back Emit
CHECK_DEADLOCK FALSE
