SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 4
  Parsing <- Ints
INVARIANTS IntegerLaws Written
CHECK_DEADLOCK FALSE
