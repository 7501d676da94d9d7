SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  N = 3
  Thresholds = {1, 3, 4}
  Recheck = FALSE
INVARIANTS SerialResult Barrier
PROPERTY Termination
CHECK_DEADLOCK FALSE
