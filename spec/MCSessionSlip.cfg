SPECIFICATION Spec
CONSTANTS
  Leak = FALSE
  Stale = FALSE
  Slip = TRUE
  Lax = FALSE
  MaxStates = 6
INVARIANT NoAlarm
CHECK_DEADLOCK FALSE
