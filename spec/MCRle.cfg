SPECIFICATION MCSpec
CONSTANTS
    Cap = 3
    DistNum = 0
    DistDen = 1
    MaxLen = 8
    Values <- V2
INVARIANTS NothingLost CountsInRange ExactRoundTrip ExactMaximal ColoursInRange
PROPERTY Terminates
