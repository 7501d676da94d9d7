SPECIFICATION Spec
CONSTANTS
  Kind = "rfft"
  Lens = {2, 6, 8, 24, 40, 64, 66, 128}
  WholeRead = FALSE
  Emit = TRUE
VIEW View
INVARIANTS NoStale Whole ErrPure
PROPERTY Monotone
CHECK_DEADLOCK FALSE
