SPECIFICATION Spec
CONSTANTS
  Alphabet <- Main
  MaxLen = 6
  Parsing <- JustR
INVARIANTS RationalLaws Written
CHECK_DEADLOCK FALSE
