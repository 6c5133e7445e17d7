SPECIFICATION Spec
CONSTANTS
 MaxMoves = 3
 MaxDt = 3
INVARIANTS Charged Fairly InTime Emit
CHECK_DEADLOCK FALSE
