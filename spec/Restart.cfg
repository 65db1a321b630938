SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3}
  Placeholders = TRUE
INVARIANTS Same NoPlaceLeft
CHECK_DEADLOCK FALSE
