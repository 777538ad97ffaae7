SPECIFICATION GSpec
CONSTANTS
    MaxLeaves = 4
    MaxMsg = 3
    LeafLen <- FLeafLen
    TagAt <- FTagAt
    SymAt <- FSymAt
    BitAt <- FBitAt
CHECK_DEADLOCK FALSE
