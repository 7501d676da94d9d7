SPECIFICATION Spec
CONSTANTS MaxFrames = 4 MaxCh = 3 MaxPacket = 3
INVARIANT Progress
INVARIANT Right
PROPERTY Finishes
CHECK_DEADLOCK FALSE
