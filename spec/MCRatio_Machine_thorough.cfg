SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfX
  StartZ <- OfZ
  Nums <- WideNum
  Dens <- WideDen
  Moves <- MovesR
  Looks <- LooksMachine
  MaxDepth = 2
  MaxBits = 512
  Every = 1
  Pick <- Apply
  More <- NoMore
INVARIANTS AllCanonical MovesAllowed LawsMachine Written
