SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Mants <- FewMants
  ExpsX <- EXX
  ExpsY <- OnlyY
  Signs <- Both
  Moves <- MovesF
  Looks <- LooksRound
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickF
  More <- MoreRound
INVARIANTS MovesAllowed LawsRound Written
CHECK_DEADLOCK FALSE
