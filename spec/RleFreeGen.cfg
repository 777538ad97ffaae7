SPECIFICATION GenSpec
CONSTANTS
    Cap = 255
    DistNum = 0
    DistDen = 1
    MaxLen = 6
    Values <- V1
INVARIANTS NothingLost CountsInRange ExactRoundTrip
CHECK_DEADLOCK FALSE
