SPECIFICATION Spec
CONSTANTS MaxEv = 3  Weights = {1, 2, 3}  Kinds = {"prior", "chain", "triangle", "table", "collider", "tail", "square", "vee", "fork"}
INVARIANTS Complete StillComplete Exact OrderFree Normalised Independent Mixture Emit
CHECK_DEADLOCK FALSE
