SPECIFICATION Spec
CONSTANTS
  Bases <- MoreBases
  Last = 3000
  LastBig = 1200
INVARIANTS Laws Written
CHECK_DEADLOCK FALSE
