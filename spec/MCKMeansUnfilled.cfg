SPECIFICATION Spec
CONSTANTS
    PointSeqs <- Inputs
    Kind = "emptied"
    MaxK = 3
    Rounded = TRUE
    Ties = TRUE
    Patience = 1
    Fills = FALSE
    Side = 2
    Depth = 2
    MaxPoints = 4
INVARIANTS NoneEmpty
CHECK_DEADLOCK TRUE
