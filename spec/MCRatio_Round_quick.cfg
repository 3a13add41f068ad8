SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfX
  StartZ <- OfZ
  Nums <- SmallNum
  Dens <- SmallDen
  Moves <- MovesR
  Looks <- LooksRound
  MaxDepth = 1
  MaxBits = 512
  Every = 1
  Pick <- Apply
  More <- NoMore
INVARIANTS AllCanonical MovesAllowed LawsRound Written
