SPECIFICATION Spec
CONSTANTS
  Leak = FALSE
  Stale = FALSE
  Slip = FALSE
  Lax = FALSE
  MaxStates = 4
INVARIANT NoAlarm
INVARIANT Decided
CHECK_DEADLOCK FALSE
