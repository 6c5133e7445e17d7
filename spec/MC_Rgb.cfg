SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Positive NonEmpty Emit
PROPERTIES Snapshots OnlyOne
CHECK_DEADLOCK FALSE
