SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS OneVariable Numbered OneOwner Inside Conservation
VIEW View
CHECK_DEADLOCK FALSE
