SPECIFICATION Spec
CONSTANTS MaxTosses = 2
INVARIANTS WellDescribed Unordered Emit
CHECK_DEADLOCK FALSE
