SPECIFICATION Spec
CONSTANTS
  Kind = "fft"
  Lens = {1, 3, 8, 12, 20, 33, 32, 64, 128}
  WholeRead = FALSE
  Emit = TRUE
VIEW View
INVARIANTS NoStale Whole ErrPure
PROPERTY Monotone
CHECK_DEADLOCK FALSE
