SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
INVARIANTS Held News Emit
CHECK_DEADLOCK FALSE
