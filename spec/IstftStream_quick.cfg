SPECIFICATION Spec
CONSTANTS
  MaxWin = 8
  MaxHop = 10
  MaxFrames = 7
  InitSlack = 2
  Emit = FALSE
  WinOnly = FALSE
VIEW View
INVARIANTS Safe Refines Amount Clean 
CHECK_DEADLOCK FALSE
