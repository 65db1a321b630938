SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Max = 2
INVARIANTS AlwaysFilled
CHECK_DEADLOCK FALSE
