SPECIFICATION Spec
CONSTANTS
    MaxPixels = 6
    MaxColors = 4
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
