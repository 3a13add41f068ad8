SPECIFICATION Spec
CONSTANTS
  B = 3
  LenX = 6
  LenY = 4
  Ops = {"div"}
  RootB = 1
  Parts = 9
  Thres = 2
  Limb <- Limb3
  Block = 1
  Every = 4
INVARIANTS DivInv DivWords Written
PROPERTY DivShrinks Ends
