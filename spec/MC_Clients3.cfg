SPECIFICATION Spec
CONSTANTS MaxTosses = 3
INVARIANTS WellDescribed Unordered Emit
CHECK_DEADLOCK FALSE
