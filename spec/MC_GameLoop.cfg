SPECIFICATION Fair
CONSTANTS
 MaxN = 2
 MaxMoves = 3
INVARIANTS InTurn StartFirst FaultEnds Blamed Outcome Told OverOnce History Emit
PROPERTY Halts
CHECK_DEADLOCK FALSE
