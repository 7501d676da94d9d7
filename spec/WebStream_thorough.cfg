CONSTANTS Win = 4
 Hop = 2
 Sizes = {0, 1, 2, 3, 4, 5, 7}
 MaxLen = 5
 DropWindow = FALSE
SPECIFICATION Spec
INVARIANTS InPlace Suffix
PROPERTY Prompt
CHECK_DEADLOCK FALSE
