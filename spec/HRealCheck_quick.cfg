SPECIFICATION Spec
CONSTANTS
  D = 60
  Last = 126
  Precs = {200, 400}
INVARIANTS ConstLaws ExpLaws LnLaws TrigLaws ArcLaws
CHECK_DEADLOCK FALSE
