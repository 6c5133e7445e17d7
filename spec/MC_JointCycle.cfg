SPECIFICATION Spec
CONSTANT Rows = "cycle"
INVARIANTS ProductIfComplete Sound Emit
CHECK_DEADLOCK FALSE
