SPECIFICATION Spec
CONSTANT Names = {"V1", "R1"}
INVARIANTS GroundsHold AliasesPoint Wired Locked Conserved AliasIsNode Kirchhoff InSystem
PROPERTY Frozen
CHECK_DEADLOCK FALSE
