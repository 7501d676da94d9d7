SPECIFICATION Spec
CONSTANTS
  Paths <- MCPaths
  Contents = {"1", "2"}
  Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
