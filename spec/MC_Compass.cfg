SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
INVARIANTS Heading Place Looks Back Emit
CHECK_DEADLOCK FALSE
