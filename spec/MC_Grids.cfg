SPECIFICATION Spec
CONSTANTS
 W = 2
 H = 2
 MaxLen = 3
INVARIANTS InGrid Split Emit
PROPERTY OneCell
CHECK_DEADLOCK FALSE
