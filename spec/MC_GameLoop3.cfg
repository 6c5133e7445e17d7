SPECIFICATION Fair
CONSTANTS
 MaxN = 3
 MaxMoves = 5
INVARIANTS InTurn StartFirst FaultEnds Blamed Outcome Told OverOnce History Emit
PROPERTY Halts
CHECK_DEADLOCK FALSE
