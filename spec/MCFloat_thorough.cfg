SPECIFICATION Spec
CONSTANTS
  Types <- Both
  Exps32 <- Every32
  Exps64 <- Every64
  Walk = 1
INVARIANTS Laws Written
CHECK_DEADLOCK FALSE
