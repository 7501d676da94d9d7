SPECIFICATION Spec
CONSTANT MaxN = 40
INVARIANTS Ortho OneLevel Levels
CHECK_DEADLOCK FALSE
