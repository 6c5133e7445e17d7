SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Closed Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
