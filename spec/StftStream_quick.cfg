SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxHop = 6
  Emit = TRUE
INVARIANTS Frames Emitted
CHECK_DEADLOCK FALSE
