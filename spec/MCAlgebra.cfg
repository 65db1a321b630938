SPECIFICATION Spec
CONSTANT Wrong = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Kept DersKept Limit
