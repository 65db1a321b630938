SPECIFICATION Spec
CONSTANTS
  Q = 16384
  Tol = 64
  Pos = {0, 32768, 81920}
  Sp = {16384}
  Ms = {"m"}
  Ds = {"d", "e"}
  MaxLines = 3
  MaxRegs = 2
  MaxIfs = 1
  MaxDevs = 2
INVARIANTS GridSound DeviceSound
PROPERTY Frozen
CHECK_DEADLOCK FALSE
