SPECIFICATION Spec
CONSTANTS
  B = 2
  LenX = 9
  LenY = 5
  Ops = {"div"}
  RootB = 1
  Parts = 4
  Thres = 2
  Limb <- Limb2
  Block = 1
  Every = 1
INVARIANTS DivInv DivWords Written
PROPERTY DivShrinks Ends
