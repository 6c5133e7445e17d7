SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 MaxLen = 3
INVARIANTS InGrid Split Emit
PROPERTY OneCell
CHECK_DEADLOCK FALSE
