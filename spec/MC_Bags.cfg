SPECIFICATION Spec
CONSTANT MaxSize = 3
INVARIANTS GroupLaws FactorLaws JoinLaws CondLaws MassLaws Emit
CHECK_DEADLOCK FALSE
