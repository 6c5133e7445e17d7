SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Items = {1, 2}
 Prios = {0, 1}
INVARIANTS Conserved Fifo Emit
PROPERTIES Lowest Lowers
CHECK_DEADLOCK FALSE
