SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- SomeMants
  ExpsX <- EXMore
  ExpsY <- OnlyY
  Signs <- Both
  Moves <- MovesMore
  Looks <- LooksConv
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- MoreConv
INVARIANTS MovesAllowed LawsConv Written
CHECK_DEADLOCK FALSE
