SPECIFICATION Spec
CONSTANTS
  Solves = 2
  Circ = FALSE
  Types = {"dc"}
CONSTANT Restore <- NoRestore
INVARIANTS Shrunk Bounded 
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
