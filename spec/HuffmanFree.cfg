SPECIFICATION FSpec
CONSTANTS
    MaxLeaves = 4
    MaxMsg = 3
    LeafLen <- FLeafLen
    TagAt <- FTagAt
    SymAt <- FSymAt
    BitAt <- FBitAt
INVARIANTS Distinct PrefixFree Deterministic TreeRead AllBits
PROPERTY Terminates
