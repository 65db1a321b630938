SPECIFICATION Spec
CONSTANTS
  Which = 2
  MaxMap = 3
INVARIANT SameSides
CHECK_DEADLOCK FALSE
