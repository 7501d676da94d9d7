SPECIFICATION Spec
CONSTANT MaxN = 10
INVARIANTS Inverse23 Self4 Self1 SelfH
CHECK_DEADLOCK FALSE
