SPECIFICATION Spec
CONSTANTS
  B = 3
  LenX = 4
  LenY = 4
  Ops = {"gcd"}
  RootB = 1
  Parts = 2
  Thres = 2
  Limb <- Limb3
  Block = 1
  Every = 1
INVARIANTS GcdInv Written
PROPERTY Ends
