SPECIFICATION Spec
CONSTANTS
 T = 4
 Boards = {1, 2, 3, 5, 6}
 Emitting = FALSE
VIEW View
INVARIANTS NotInWalls Timers Ends Stuck Going NoReverse
PROPERTIES ScoreLaw Frame TimerLaw
CHECK_DEADLOCK FALSE
