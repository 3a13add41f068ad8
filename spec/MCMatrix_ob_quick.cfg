SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Entries <- Bits
  Sizes <- Oblong
  YEntries <- Bits
  YSizes <- Oblong
  Moves <- MovesM
  Looks <- LooksM
  MaxDepth = 0
  MaxBits = 10000
  Every = 1
  Pick <- PickM
  More <- NoMore
INVARIANTS MovesAllowed LawsM Written
CHECK_DEADLOCK FALSE
