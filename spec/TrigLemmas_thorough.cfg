SPECIFICATION Spec
CONSTANT MaxN = 40
INVARIANTS Inverse23 Self4 Self1 SelfH
CHECK_DEADLOCK FALSE
