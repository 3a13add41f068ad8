SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 5
  Parsing <- JustF
INVARIANTS FloatLaws Written
CHECK_DEADLOCK FALSE
