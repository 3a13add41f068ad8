SPECIFICATION Spec
CONSTANTS
  Dens = {1, 3, 10}
  Span = 3
  Terms = 6
  Extra = {1, 4}
INVARIANTS Laws Consts Written
CHECK_DEADLOCK FALSE
