SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Limbs <- Few
  LenX = 2
  LenY = 2
  Moves <- MovesI
  Looks <- LooksInt
  MaxDepth = 1
  MaxBits = 256
  Every = 1
  Pick <- Apply
  More <- NoMore
INVARIANTS AllCanonical MovesAllowed LawsInt Written
