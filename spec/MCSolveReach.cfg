SPECIFICATION Spec
CONSTANTS
  Solves = 3
  Circ = FALSE
  Types = {"transient_dc", "transient_tr", "transient_bdf2"}

INVARIANTS Shrunk Bounded NeverTwoSteps
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
