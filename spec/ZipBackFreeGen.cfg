SPECIFICATION GenSpec
CONSTANTS
    Window = 65535
    MinRep = 6
    MaxLen = 32767
    Letters = 2
    MaxInput = 5
INVARIANTS WellFormedFree
CHECK_DEADLOCK FALSE
