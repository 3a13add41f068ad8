SPECIFICATION Spec
CONSTANTS
  B = 3
  LenX = 5
  LenY = 5
  Ops = {"kara"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb3
  Block = 23
  Every = 8
INVARIANTS KaraInv Written
PROPERTY Ends
