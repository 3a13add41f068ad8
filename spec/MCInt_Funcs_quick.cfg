SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Limbs <- Few
  LenX = 2
  LenY = 2
  Moves <- MovesI
  Looks <- LooksFuncs
  MaxDepth = 1
  MaxBits = 256
  Every = 1
  Pick <- Apply
  More <- NoMore
INVARIANTS AllCanonical MovesAllowed LawsNone Written
