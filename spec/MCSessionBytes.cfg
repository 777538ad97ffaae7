SPECIFICATION Spec
CONSTANTS
    Codecs = {"exact", "lossy"}
    Images = {"a", "tall"}
    Lossless <- MCLossless
    Dim <- MCDim
    MaxLen = 2
    MaxSegs = 2
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
