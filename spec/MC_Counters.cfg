SPECIFICATION Spec
CONSTANTS
 Keys = {"k1", "k2"}
 MaxLen = 2
INVARIANTS Unit Additive DotLaw MaxLaw Emit
CHECK_DEADLOCK FALSE
