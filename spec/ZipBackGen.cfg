SPECIFICATION GenSpec
CONSTANTS
    Window = 65535
    MinRep = 6
    MaxLen = 32767
    Letters = 2
    MaxInput = 14
INVARIANTS WellFormed Maximal
CHECK_DEADLOCK FALSE
