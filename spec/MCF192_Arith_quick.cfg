SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- FewMants
  ExpsX <- EXX
  ExpsY <- EXY
  Signs <- Both
  Moves <- MovesF
  Looks <- LooksArith
  MaxDepth = 0
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- NoMore
INVARIANTS MovesAllowed LawsArith LawsOrder Written
CHECK_DEADLOCK FALSE
