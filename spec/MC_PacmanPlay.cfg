SPECIFICATION Spec
CONSTANTS
 T = 40
 Boards = {1, 3, 5, 6}
 Emitting = TRUE
VIEW View
INVARIANTS Emit NotInWalls Timers Ends Stuck Going NoReverse
PROPERTIES ScoreLaw Frame TimerLaw
CHECK_DEADLOCK FALSE
