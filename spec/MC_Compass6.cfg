SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
INVARIANTS Heading Place Looks Back Emit
CHECK_DEADLOCK FALSE
