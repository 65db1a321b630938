SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Max = 4
INVARIANTS Filled Edges Constant Slopes
CHECK_DEADLOCK FALSE
