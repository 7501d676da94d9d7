SPECIFICATION Spec
CONSTANTS
  MaxWin = 4
  MaxHop = 5
  MaxFrames = 3
  InitSlack = 0
  Emit = FALSE
  WinOnly = TRUE
VIEW View
INVARIANTS Safe Refines Amount Clean 
CHECK_DEADLOCK FALSE
