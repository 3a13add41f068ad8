SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Entries <- Tern
  Sizes <- Two
  YEntries <- Tern
  YSizes <- Two
  Moves <- MovesSquare
  Looks <- LooksM
  MaxDepth = 2
  MaxBits = 10000
  Every = 1
  Pick <- PickM
  More <- NoMore
INVARIANTS MovesAllowed LawsM Written
CHECK_DEADLOCK FALSE
