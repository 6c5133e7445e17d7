SPECIFICATION Spec
CONSTANTS MaxEv = 2  Weights = {1}  Kinds = {"prior", "chain", "fork", "vee"}
INVARIANTS Complete Exact Normalised Independent Mixture Emit
CHECK_DEADLOCK FALSE
