SPECIFICATION FreeSpec
CONSTANTS
    Cap = 3
    DistNum = 0
    DistDen = 1
    MaxLen = 6
    Values <- V2
INVARIANTS NothingLost CountsInRange ExactRoundTrip
PROPERTY Terminates
