SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Positive Lengths Emit
PROPERTY Snapshots
CHECK_DEADLOCK FALSE
