SPECIFICATION Spec
CONSTANTS
    NCodecs = 6
    NImages = 6
    Runs = 6
    MaxList = 4
    Variants = 12
    MaxBroken = 2
CHECK_DEADLOCK FALSE
