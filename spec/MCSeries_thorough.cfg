SPECIFICATION Spec
CONSTANTS
  Dens = {1, 2, 3, 7, 10, 16, 33}
  Span = 8
  Terms = 9
  Extra = {1, 3, 5, 7}
INVARIANTS Laws Consts Written
CHECK_DEADLOCK FALSE
