SPECIFICATION MCSpec
CONSTANTS
    Base = 2
    LastCode = 4
    Eof = 9
    MaxLen = 10
INVARIANTS Decodable Synchronised OutputIsPrefix RoundTrip EofOnlyLast NoDuplicates CodesBounded
PROPERTY Terminates
