SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Positive NonEmpty Emit
PROPERTIES Snapshots OnlyOne
CHECK_DEADLOCK FALSE
