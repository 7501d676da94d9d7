SPECIFICATION Spec
CONSTANTS
  MaxWin = 4
  MaxHop = 5
  MaxFrames = 3
  InitSlack = 2
  Emit = TRUE
  WinOnly = FALSE

INVARIANTS Safe Refines Amount Clean Emitted
CHECK_DEADLOCK FALSE
