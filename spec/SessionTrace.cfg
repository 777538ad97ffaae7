SPECIFICATION TSpec
CONSTANTS
    Codecs <- TCodecs
    Images <- TImages
    Lossless <- TLossless
    Dim <- TDim
    MaxLen = 0
    MaxSegs = 0
CHECK_DEADLOCK TRUE
