SPECIFICATION Spec
CONSTANTS
    NThreads = 1
    NCodecs = 3
    NImages = 3
    Calls = 6
    Faults = FALSE
CHECK_DEADLOCK FALSE
