SPECIFICATION Spec
CONSTANTS
    PointSeqs <- Inputs
    Kind = "image"
    MaxK = 2
    Rounded = TRUE
    Ties = TRUE
    Patience = 2
    Fills = TRUE
    Side = 2
    Depth = 2
    MaxPoints = 4
INVARIANTS NoneEmpty Partition CentresAreMeans Alone SettledPair CanReseed ShortcutsExact
PROPERTY Terminates
CHECK_DEADLOCK TRUE
