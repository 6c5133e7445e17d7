SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
INVARIANTS Accepted Independent Overridden Local Emit
CHECK_DEADLOCK FALSE
