SPECIFICATION Spec
CONSTANTS
  B = 4
  LenX = 4
  LenY = 3
  Ops = {"mul"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb4
  Block = 1
  Every = 1
INVARIANTS MulInv Written
PROPERTY Ends
