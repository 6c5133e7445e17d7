SPECIFICATION Spec
CONSTANTS MaxLen = 5
  Part = "s"
INVARIANTS Sound Built Emit
PROPERTIES Fixed OnlyOne
CHECK_DEADLOCK FALSE
