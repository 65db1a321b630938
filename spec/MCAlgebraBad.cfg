SPECIFICATION Spec
CONSTANT Wrong = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Kept DersKept Limit
