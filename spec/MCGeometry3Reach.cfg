SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Max = 2
INVARIANTS NeverGood
CHECK_DEADLOCK FALSE
