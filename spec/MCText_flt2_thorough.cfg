SPECIFICATION Spec
CONSTANTS
  Alphabet <- FewChars
  MaxLen = 8
  Parsing <- JustF
INVARIANTS FloatLaws Written
CHECK_DEADLOCK FALSE
