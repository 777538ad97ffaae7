SPECIFICATION MCSpec
CONSTANTS
    Window = 4
    MinRep = 2
    MaxLen = 3
    Letters = 2
    MaxInput = 9
INVARIANTS Decodable OutputIsPrefix RoundTrip WellFormed Maximal
PROPERTY Terminates
