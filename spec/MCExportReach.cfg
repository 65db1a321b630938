SPECIFICATION Spec
CONSTANTS
  Types = {"vtk", "tecplot"}
  MaxSteps = 5
  Nodes = {"n"}
  Edges = {"e"}
INVARIANTS OnlyOwn

CHECK_DEADLOCK FALSE
