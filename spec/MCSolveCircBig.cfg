SPECIFICATION Spec
CONSTANTS
  Solves = 2
  Circ = TRUE
  Types = {"dc", "transient_dc", "transient_tr", "transient_bdf2", "ac", "noise"}

INVARIANTS Shrunk Bounded 
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
