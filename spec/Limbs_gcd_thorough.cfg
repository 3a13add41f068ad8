SPECIFICATION Spec
CONSTANTS
  B = 4
  LenX = 4
  LenY = 4
  Ops = {"gcd"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb4
  Block = 1
  Every = 2
INVARIANTS GcdInv Written
PROPERTY Ends
