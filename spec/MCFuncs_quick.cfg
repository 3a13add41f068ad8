SPECIFICATION Spec
CONSTANTS
  Bases <- SomeBases
  Last = 400
  LastBig = 260
INVARIANTS Laws Written
CHECK_DEADLOCK FALSE
