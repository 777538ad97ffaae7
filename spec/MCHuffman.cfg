SPECIFICATION MSpec
CONSTANTS
    MaxSyms = 4
    MaxWeight = 4
    LeafLen <- MLeafLen
    TagAt <- MTagAt
    SymAt <- MSymAt
    BitAt <- MBitAt
INVARIANTS Distinct PrefixFree Deterministic AllSymbols Optimal Padding TreeSize
PROPERTY Terminates
