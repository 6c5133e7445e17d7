SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
INVARIANTS Accepted Independent Overridden Local Emit
CHECK_DEADLOCK FALSE
