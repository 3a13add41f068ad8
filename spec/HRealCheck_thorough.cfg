SPECIFICATION Spec
CONSTANTS
  D = 97
  Last = 1500
  Precs = {150, 200, 400, 1000, 2000}
INVARIANTS ConstLaws ExpLaws LnLaws TrigLaws ArcLaws
CHECK_DEADLOCK FALSE
