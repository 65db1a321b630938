SPECIFICATION Spec
CONSTANTS
  Leak = FALSE
  Stale = TRUE
  Slip = FALSE
  Lax = FALSE
  MaxStates = 6
INVARIANT NoAlarm
CHECK_DEADLOCK FALSE
