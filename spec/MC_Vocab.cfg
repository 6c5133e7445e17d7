SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Closed Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
