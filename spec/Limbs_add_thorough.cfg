SPECIFICATION Spec
CONSTANTS
  B = 4
  LenX = 5
  LenY = 4
  Ops = {"add", "sub"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb4
  Block = 1
  Every = 8
INVARIANTS AddInv SubInv Written
PROPERTY Ends
