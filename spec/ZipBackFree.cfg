SPECIFICATION FreeSpec
CONSTANTS
    Window = 3
    MinRep = 2
    MaxLen = 2
    Letters = 2
    MaxInput = 5
INVARIANTS Decodable OutputIsPrefix RoundTrip WellFormedFree
PROPERTY Terminates
