SPECIFICATION Spec
CONSTANT Rows = "chain"
INVARIANTS ProductIfComplete Sound Emit
CHECK_DEADLOCK FALSE
