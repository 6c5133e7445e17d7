SPECIFICATION Spec
CONSTANT Mode = "add"
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Unambiguous
PROPERTY Monotone
CHECK_DEADLOCK FALSE
