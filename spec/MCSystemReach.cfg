SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANT NeverConserving
VIEW View
CHECK_DEADLOCK FALSE
