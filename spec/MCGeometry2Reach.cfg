SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Max = 4
INVARIANTS NeverGood
CHECK_DEADLOCK FALSE
