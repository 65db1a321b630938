SPECIFICATION Spec
CONSTANTS
  Which = 3
  MaxMap = 3
INVARIANT DeviceSound
CHECK_DEADLOCK FALSE
