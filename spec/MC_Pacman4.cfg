SPECIFICATION Spec
CONSTANTS
 T = 3
 Boards = {4}
 Emitting = FALSE
VIEW View
INVARIANTS NotInWalls Timers Ends Stuck Going NoReverse
PROPERTIES ScoreLaw Frame TimerLaw
CHECK_DEADLOCK FALSE
