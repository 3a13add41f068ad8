SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- FewMants
  ExpsX <- EXX
  ExpsY <- OnlyY
  Signs <- Both
  Moves <- MovesF
  Looks <- LooksConv
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- MoreConv
INVARIANTS MovesAllowed LawsConv Written
CHECK_DEADLOCK FALSE
