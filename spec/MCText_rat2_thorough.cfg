SPECIFICATION Spec
CONSTANTS
  Alphabet <- FewChars
  MaxLen = 8
  Parsing <- JustR
INVARIANTS RationalLaws Written
CHECK_DEADLOCK FALSE
