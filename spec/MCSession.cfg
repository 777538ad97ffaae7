SPECIFICATION Spec
CONSTANTS
    Codecs = {"exact", "lossy"}
    Images = {"a", "b", "tall"}
    Lossless <- MCLossless
    Dim <- MCDim
    MaxLen = 2
    MaxSegs = 2
INVARIANTS TypeOK NoImageFromTruncated LosslessRoundTrip SameDimensions OnlyLastIncomplete
PROPERTY InOrder
CHECK_DEADLOCK FALSE
