SPECIFICATION TSpec
CONSTANTS
    Cap = 255
    DistNum = 0
    DistDen = 1
VIEW TView
CHECK_DEADLOCK TRUE
