SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 5
  Parsing <- JustR
INVARIANTS RationalLaws Written
CHECK_DEADLOCK FALSE
