SPECIFICATION SpecBad
CONSTANTS
  Devices = {"d"}
  Files = {"f"}
  Commands = {"c1"}
  Keys = {"u"}
  Values = {1, 2}
  MaxDef = 2
  MaxSteps = 6
INVARIANTS TypeOK Known
PROPERTIES NoTrace WritesOnlyFiles RoundTrip
CHECK_DEADLOCK FALSE
