SPECIFICATION TraceSpec
CONSTANTS
  Q = 16384
  Tol = 64
INVARIANTS GridSound DeviceSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
