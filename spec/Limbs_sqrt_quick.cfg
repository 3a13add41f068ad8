SPECIFICATION Spec
CONSTANTS
  B = 4
  LenX = 6
  LenY = 1
  Ops = {"sqrt"}
  RootB = 2
  Parts = 2
  Thres = 2
  Limb <- Limb4
  Block = 1
  Every = 1
INVARIANTS SqrtInv Written
PROPERTY Ends
