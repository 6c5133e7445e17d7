SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Part = "g"
INVARIANTS Sound Built Emit
PROPERTIES Fixed OnlyOne
CHECK_DEADLOCK FALSE
