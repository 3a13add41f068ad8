SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Coeffs <- Fracs
  MaxCoeffs = 4
  Points <- FewPoints
  Moves <- MovesP
  Looks <- LooksP
  MaxDepth = 2
  MaxBits = 10000
  Every = 1
  Pick <- PickP
  More <- Interpolations
INVARIANTS MovesAllowed AllCanonicalP LawsP Written
CHECK_DEADLOCK FALSE
