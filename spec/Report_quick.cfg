CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Fresh
PROPERTIES Kept Still
CHECK_DEADLOCK FALSE
