SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Items = {1, 2, 3}
 Prios = {0, 1}
INVARIANTS Conserved Fifo Emit
PROPERTIES Lowest Lowers
CHECK_DEADLOCK FALSE
