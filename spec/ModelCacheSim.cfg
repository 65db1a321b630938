SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  Mod = 5
  SignalOnAdd = TRUE
INVARIANTS Fresh
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
