SPECIFICATION Spec
CONSTANTS
  Solves = 1
  Circ = FALSE
  Types = {"dc"}
CONSTANT Converged <- Either
INVARIANTS Shrunk Bounded 
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
