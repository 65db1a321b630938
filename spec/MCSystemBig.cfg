SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS OneVariable Numbered OneOwner Inside Conservation
VIEW View
CHECK_DEADLOCK FALSE
