SPECIFICATION Spec
CONSTANTS
  Kind = "fft"
  Lens = {1, 8, 12, 20, 32, 64}
  WholeRead = TRUE
  Emit = FALSE
VIEW View
INVARIANTS NoStale Whole ErrPure
PROPERTY Monotone
CHECK_DEADLOCK FALSE
