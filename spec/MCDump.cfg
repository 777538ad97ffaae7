SPECIFICATION Spec
CONSTANTS
    MaxW = 3
    MaxH = 2
    Truncate = TRUE
INVARIANT GoodDump
CHECK_DEADLOCK FALSE
