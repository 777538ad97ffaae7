SPECIFICATION MCSpec
CONSTANTS
    Cap = 4
    DistNum = 3
    DistDen = 2
    MaxLen = 7
    Values <- V3
INVARIANTS NothingLost CountsInRange ExactRoundTrip ExactMaximal ColoursInRange
PROPERTY Terminates
