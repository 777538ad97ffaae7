SPECIFICATION Spec
CONSTANTS
    MaxValue = 2
    MaxPixels = 4
INVARIANTS DiffsInRange AccIsAPixel RoundTrip PartOfImage
PROPERTY Terminates
