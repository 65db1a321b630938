SPECIFICATION Spec
CONSTANTS
  Types = {"vtk", "tecplot"}
  MaxSteps = 5
  Nodes = {"n"}
  Edges = {"e"}

PROPERTIES LastDecides
CHECK_DEADLOCK FALSE
