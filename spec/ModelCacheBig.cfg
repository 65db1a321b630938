SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  Mod = 2
  SignalOnAdd = TRUE
INVARIANTS TypeOK Fresh Supported
PROPERTY ReadsAreFresh
VIEW View
CHECK_DEADLOCK FALSE
