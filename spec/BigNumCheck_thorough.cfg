SPECIFICATION Spec
CONSTANTS
  MaxX = 5
  MaxY = 2
  DigitSet <- Few
  Range = 200
INVARIANTS Same Defining Small
CHECK_DEADLOCK FALSE
