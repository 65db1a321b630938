SPECIFICATION Spec
CONSTANTS
  Leak = TRUE
  Stale = FALSE
  Slip = FALSE
  Lax = FALSE
  MaxStates = 6
INVARIANT NoAlarm
CHECK_DEADLOCK FALSE
