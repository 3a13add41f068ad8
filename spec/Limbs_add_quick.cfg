SPECIFICATION Spec
CONSTANTS
  B = 3
  LenX = 5
  LenY = 4
  Ops = {"add", "sub"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb3
  Block = 1
  Every = 1
INVARIANTS AddInv SubInv Written
PROPERTY Ends
