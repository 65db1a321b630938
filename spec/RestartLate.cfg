SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3}
  Placeholders = TRUE
INVARIANTS SameEvenLate
CHECK_DEADLOCK FALSE
