SPECIFICATION Spec
CONSTANTS
  Solves = 1
  Circ = FALSE
  Types = {"dc"}

INVARIANTS Shrunk Bounded NeverTwoIterations
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
