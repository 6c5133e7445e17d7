SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
INVARIANTS Held News Emit
CHECK_DEADLOCK FALSE
