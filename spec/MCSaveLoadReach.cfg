SPECIFICATION Spec
CONSTANTS
  Devices = {"d"}
  Files = {"f"}
  Commands = {"c1"}
  Keys = {"u"}
  Values = {1, 2}
  MaxDef = 2
  MaxSteps = 6
INVARIANTS NeverBack
CHECK_DEADLOCK FALSE
