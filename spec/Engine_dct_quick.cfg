SPECIFICATION Spec
CONSTANTS
  Kind = "dct"
  Lens = {1, 3, 8, 12, 32}
  WholeRead = FALSE
  Emit = TRUE
VIEW View
INVARIANTS NoStale Whole ErrPure
PROPERTY Monotone
CHECK_DEADLOCK FALSE
