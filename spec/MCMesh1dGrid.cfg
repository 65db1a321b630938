SPECIFICATION GSpec
CONSTANTS
  Q = 16384
  Tol = 64
  Lens = {3, 4, 5, 7, 8, 11, 12, 15, 16, 20, 21, 28, 31, 32}
  Sps = {1, 2, 3, 4, 5, 7, 8, 12}
INVARIANT GridSound
CHECK_DEADLOCK FALSE
