SPECIFICATION Spec
CONSTANT MaxN = 17
INVARIANTS Ortho OneLevel Levels
CHECK_DEADLOCK FALSE
