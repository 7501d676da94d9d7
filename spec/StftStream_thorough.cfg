SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxHop = 9
  Emit = TRUE
INVARIANTS Frames Emitted
CHECK_DEADLOCK FALSE
