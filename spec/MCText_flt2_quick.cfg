SPECIFICATION Spec
CONSTANTS
  Alphabet <- FewChars
  MaxLen = 6
  Parsing <- JustF
INVARIANTS FloatLaws Written
CHECK_DEADLOCK FALSE
