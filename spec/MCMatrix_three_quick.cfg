SPECIFICATION Spec
VIEW View
CONSTANTS
  StartX <- OfX
  StartY <- OfY
  StartZ <- OfZ
  Entries <- Bits
  Sizes <- Three
  YEntries <- Bits
  YSizes <- One
  Moves <- MovesNone
  Looks <- LooksDet
  MaxDepth = 0
  MaxBits = 10000
  Every = 1
  Pick <- PickM
  More <- NoMore
INVARIANTS MovesAllowed LawsM Written
CHECK_DEADLOCK FALSE
