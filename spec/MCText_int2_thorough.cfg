SPECIFICATION Spec
CONSTANTS
  Alphabet <- Second
  MaxLen = 5
  Parsing <- Ints
INVARIANTS IntegerLaws Written
CHECK_DEADLOCK FALSE
