SPECIFICATION Spec
CONSTANTS
  Devices = {"d", "e"}
  Files = {"f", "g"}
  Commands = {"c1"}
  Keys = {"u"}
  Values = {1, 2}
  MaxDef = 2
  MaxSteps = 8
INVARIANTS TypeOK Known
PROPERTIES NoTrace WritesOnlyFiles RoundTrip
CHECK_DEADLOCK FALSE
