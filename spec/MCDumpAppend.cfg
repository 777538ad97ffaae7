SPECIFICATION Spec
CONSTANTS
    MaxW = 3
    MaxH = 2
    Truncate = FALSE
INVARIANT GoodDump
CHECK_DEADLOCK FALSE
