SPECIFICATION Spec
CONSTANTS
  Which = 2
  MaxMap = 3
INVARIANT DeviceSound
CHECK_DEADLOCK FALSE
