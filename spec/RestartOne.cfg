SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3}
  Placeholders = FALSE
INVARIANTS Same NoPlaceLeft
CHECK_DEADLOCK FALSE
