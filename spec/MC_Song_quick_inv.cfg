SPECIFICATION Spec
CONSTANTS
  Paths <- MCPaths
  Contents = {"1", "2"}
  Emit = FALSE
INVARIANTS Known Stable Bound
PROPERTIES Kept ErrPure
CHECK_DEADLOCK FALSE
