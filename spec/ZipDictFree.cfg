SPECIFICATION FreeSpec
CONSTANTS
    Base = 2
    LastCode = 4
    Eof = 9
    MaxLen = 6
INVARIANTS Decodable Synchronised OutputIsPrefix RoundTrip EofOnlyLast CodesBounded
PROPERTY Terminates
