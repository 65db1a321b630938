SPECIFICATION Spec
CONSTANTS
  Solves = 2
  Circ = TRUE
  Types = {"dc", "noise", "ac"}

INVARIANTS Shrunk Bounded 
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
