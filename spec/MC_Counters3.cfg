SPECIFICATION Spec
CONSTANTS
 Keys = {"k1", "k2", "k3"}
 MaxLen = 1
INVARIANTS Unit Additive DotLaw MaxLaw Emit
CHECK_DEADLOCK FALSE
