SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- SomeMants
  ExpsX <- EXMore
  ExpsY <- OnlyY
  Signs <- Both
  Moves <- MovesMore
  Looks <- LooksRound
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- MoreRound
INVARIANTS MovesAllowed LawsRound Written
CHECK_DEADLOCK FALSE
