SPECIFICATION Spec
CONSTANTS MaxFrames = 9 MaxCh = 4 MaxPacket = 5
INVARIANT Progress
INVARIANT Right
PROPERTY Finishes
CHECK_DEADLOCK FALSE
