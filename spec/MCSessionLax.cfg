SPECIFICATION Spec
CONSTANTS
  Leak = FALSE
  Stale = FALSE
  Slip = FALSE
  Lax = TRUE
  MaxStates = 6
INVARIANT NoAlarm
CHECK_DEADLOCK FALSE
