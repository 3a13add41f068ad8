SPECIFICATION Spec
CONSTANTS
  Alphabet <- FewChars
  MaxLen = 6
  Parsing <- JustR
INVARIANTS RationalLaws Written
CHECK_DEADLOCK FALSE
