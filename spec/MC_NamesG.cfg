SPECIFICATION Spec
CONSTANTS MaxLen = 3
  Part = "g"
INVARIANTS Sound Built Emit
PROPERTIES Fixed OnlyOne
CHECK_DEADLOCK FALSE
