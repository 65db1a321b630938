SPECIFICATION Spec
CONSTANTS
  Q = 16384
  Tol = 64
  Lim = 3
  MaxBox = 2
  Half = TRUE
INVARIANT DeviceSound
CHECK_DEADLOCK FALSE
