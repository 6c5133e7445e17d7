SPECIFICATION Spec
CONSTANT MaxSize = 4
INVARIANTS GroupLaws FactorLaws JoinLaws CondLaws MassLaws Emit
CHECK_DEADLOCK FALSE
