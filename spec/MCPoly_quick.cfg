SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Coeffs <- Tern
  MaxCoeffs = 4
  Points <- FewPoints
  Moves <- MovesP
  Looks <- LooksP
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickP
  More <- Interpolations
INVARIANTS MovesAllowed AllCanonicalP LawsP Written
CHECK_DEADLOCK FALSE
