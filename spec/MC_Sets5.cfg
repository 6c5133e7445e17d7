SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Positive Lengths Emit
PROPERTY Snapshots
CHECK_DEADLOCK FALSE
