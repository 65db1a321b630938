SPECIFICATION Spec
CONSTANTS
  Leak = FALSE
  Stale = FALSE
  Slip = FALSE
  Lax = FALSE
  MaxStates = 6
INVARIANT NeverAgain
CHECK_DEADLOCK FALSE
