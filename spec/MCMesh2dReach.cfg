SPECIFICATION Spec
CONSTANTS
  Q = 16384
  Tol = 64
  Lim = 2
  MaxBox = 2
  Half = TRUE
INVARIANT NoBoth
CHECK_DEADLOCK FALSE
