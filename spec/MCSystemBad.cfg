SPECIFICATION Spec
CONSTANT Rich = FALSE
CONSTANT ContactNodes <- ContactNodesAll
INVARIANTS OneVariable Numbered OneOwner Inside Conservation
VIEW View
CHECK_DEADLOCK FALSE
