SPECIFICATION TSpec
CONSTANTS
    LeafLen <- TLeafLen
    TagAt <- TTagAt
    SymAt <- TSymAt
    BitAt <- TBitAt
VIEW TView
ALIAS TShown
CHECK_DEADLOCK TRUE
