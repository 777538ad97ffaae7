SPECIFICATION Spec
CONSTANTS
    PointSeqs <- Inputs
    Kind = "grid"
    MaxK = 3
    Rounded = FALSE
    Ties = FALSE
    Patience = 0
    Fills = TRUE
    Side = 5
    Depth = 1
    MaxPoints = 4
INVARIANTS NoneEmpty Partition CentresAreMeans Alone SettledPair CanReseed ShortcutsExact
PROPERTY Terminates
CHECK_DEADLOCK TRUE
