SPECIFICATION Spec
CONSTANTS
  WithBuiltin = FALSE
  Dev = {"d1", "d2"}
  Reg = {"r1", "r2"}
  Nam = {"p"}
  Val = {"int:1", "str:b"}
  Mat = {"Si"}
VIEW View
INVARIANT NoOrphan
PROPERTIES RefusalsChangeNothing OnlyAddressed ReadBack
CHECK_DEADLOCK FALSE
