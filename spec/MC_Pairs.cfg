SPECIFICATION Spec
INVARIANTS Ok SimLaws SubLaws ExtLaws ReplaceLaws ProjectLaws CondLaws Emit
CHECK_DEADLOCK FALSE
