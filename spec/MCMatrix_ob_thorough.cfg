SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Entries <- Signs
  Sizes <- UpTo2
  YEntries <- Bits
  YSizes <- Oblong
  Moves <- MovesM
  Looks <- LooksM
  MaxDepth = 1
  MaxBits = 10000
  Every = 1
  Pick <- PickM
  More <- NoMore
INVARIANTS MovesAllowed LawsM Written
CHECK_DEADLOCK FALSE
