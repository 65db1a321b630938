SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Max = 2
INVARIANTS Filled Edges Constant Slopes
CHECK_DEADLOCK FALSE
