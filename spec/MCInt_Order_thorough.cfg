SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Limbs <- Few
  LenX = 3
  LenY = 2
  Moves <- MovesI
  Looks <- LooksOrder
  MaxDepth = 2
  MaxBits = 384
  Every = 1
  Pick <- Apply
  More <- NoMore
INVARIANTS AllCanonical MovesAllowed LawsOrder Written
