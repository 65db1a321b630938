SPECIFICATION Spec
CONSTANTS
  Solves = 2
  Circ = FALSE
  Types = {"dc", "transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2"}

INVARIANTS Shrunk Bounded 
PROPERTIES FailedKeeps Remembers LastCharge
VIEW View
CHECK_DEADLOCK FALSE
