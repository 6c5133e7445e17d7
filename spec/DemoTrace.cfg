SPECIFICATION Spec
CONSTANT ScaredTime = 40
CHECK_DEADLOCK FALSE
