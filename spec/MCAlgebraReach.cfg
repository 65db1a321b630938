SPECIFICATION Spec
CONSTANT Wrong = FALSE
CHECK_DEADLOCK FALSE
INVARIANT NoPower
