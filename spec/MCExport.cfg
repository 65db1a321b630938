SPECIFICATION Spec
CONSTANTS
  Types = {"vtk", "tecplot"}
  MaxSteps = 6
  Nodes = {"n"}
  Edges = {"e"}
INVARIANTS TypeOK Wanted Single Alike
PROPERTIES Told Own
CHECK_DEADLOCK FALSE
