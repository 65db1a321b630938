SPECIFICATION Spec
CONSTANTS
  Which = 2
  MaxMap = 4
INVARIANT NoFull
CHECK_DEADLOCK FALSE
