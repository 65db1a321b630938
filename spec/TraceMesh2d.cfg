SPECIFICATION TraceSpec
CONSTANTS
  Q = 16384
  Tol = 64
INVARIANTS DeviceSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
