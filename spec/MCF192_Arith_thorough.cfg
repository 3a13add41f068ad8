SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- SomeMants
  ExpsX <- EXMore
  ExpsY <- EYMore
  Signs <- Both
  Moves <- MovesMore
  Looks <- LooksArith
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- NoMore
INVARIANTS MovesAllowed LawsArith LawsOrder Written
CHECK_DEADLOCK FALSE
