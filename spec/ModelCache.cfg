SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Mod = 3
  SignalOnAdd = TRUE
INVARIANTS TypeOK Fresh Supported
PROPERTY ReadsAreFresh
VIEW View
CHECK_DEADLOCK FALSE
