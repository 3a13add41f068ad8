SPECIFICATION Spec
CONSTANTS
  Alphabet <- Second
  MaxLen = 4
  Parsing <- Ints
INVARIANTS IntegerLaws Written
CHECK_DEADLOCK FALSE
