SPECIFICATION Spec
CONSTANTS
    PointSeqs <- Inputs
    Kind = "revolving"
    MaxK = 2
    Rounded = TRUE
    Ties = TRUE
    Patience = 0
    Fills = TRUE
    Side = 1
    Depth = 1
    MaxPoints = 4
INVARIANTS NoneEmpty Partition CentresAreMeans Alone SettledPair CanReseed ShortcutsExact
PROPERTY Terminates
CHECK_DEADLOCK TRUE
