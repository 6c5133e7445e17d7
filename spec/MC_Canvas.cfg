SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
INVARIANTS Distinct Ground Angles Back Emit
PROPERTIES Local Steady
CHECK_DEADLOCK FALSE
