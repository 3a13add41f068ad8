SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 6
  Parsing <- Ints
INVARIANTS IntegerLaws Written
CHECK_DEADLOCK FALSE
