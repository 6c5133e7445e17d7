SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
INVARIANTS Distinct Ground Angles Back Emit
PROPERTIES Local Steady
CHECK_DEADLOCK FALSE
