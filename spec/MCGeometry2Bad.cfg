SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Max = 4
INVARIANTS AlwaysFilled
CHECK_DEADLOCK FALSE
