SPECIFICATION Spec
CONSTANTS
  Types <- Both
  Exps32 <- Some32
  Exps64 <- Some64
  Walk = 1
INVARIANTS Laws Written
CHECK_DEADLOCK FALSE
