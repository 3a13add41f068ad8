SPECIFICATION Spec
CONSTANTS
  B = 2
  LenX = 7
  LenY = 6
  Ops = {"kara"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb2
  Block = 23
  Every = 2
INVARIANTS KaraInv Written
PROPERTY Ends
