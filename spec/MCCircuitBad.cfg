SPECIFICATION Spec
CONSTANT Names = {"V1", "R1"}
CONSTANT Needs <- NeedsUnresolved
INVARIANTS GroundsHold AliasesPoint Wired Locked Conserved AliasIsNode Kirchhoff InSystem
CHECK_DEADLOCK FALSE
