SPECIFICATION Spec
CONSTANTS
 T = 3
 Boards = {1, 2, 3, 4}
INVARIANTS Things Me Others
CHECK_DEADLOCK FALSE
