SPECIFICATION Spec
CONSTANTS
  MaxWin = 16
  MaxHop = 20
  MaxFrames = 12
  InitSlack = 2
  Emit = FALSE
  WinOnly = FALSE
VIEW View
INVARIANTS Safe Refines Amount Clean 
CHECK_DEADLOCK FALSE
