SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 6
  Parsing <- JustF
INVARIANTS FloatLaws Written
CHECK_DEADLOCK FALSE
