SPECIFICATION Spec
CONSTANTS
  B = 9
  LenX = 5
  LenY = 1
  Ops = {"sqrt"}
  RootB = 3
  Parts = 2
  Thres = 2
  Limb <- Limb9
  Block = 1
  Every = 4
INVARIANTS SqrtInv Written
PROPERTY Ends
