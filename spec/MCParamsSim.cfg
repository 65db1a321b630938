SPECIFICATION Spec
CONSTANTS
  WithBuiltin = TRUE
  Dev = {"d1", "d2"}
  Reg = {"r1", "r2"}
  Nam = {"p", "info"}
  Val = {"int:1", "str:b"}
  Mat = {"Si", "Ox"}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
