CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANT Fresh
PROPERTIES Kept Still
CHECK_DEADLOCK FALSE
