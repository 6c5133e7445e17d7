SPECIFICATION Spec
CONSTANTS MaxEv = 2  Weights = {1, 2}  Kinds = {"prior", "chain", "triangle", "table", "collider", "fork"}
INVARIANTS Complete StillComplete Exact OrderFree Normalised Independent Mixture Emit
CHECK_DEADLOCK FALSE
