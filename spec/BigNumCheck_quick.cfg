SPECIFICATION Spec
CONSTANTS
  MaxX = 4
  MaxY = 2
  DigitSet <- Few
  Range = 70
INVARIANTS Same Defining Small
CHECK_DEADLOCK FALSE
