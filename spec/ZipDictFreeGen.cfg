SPECIFICATION GenSpec
CONSTANTS
    Base = 2
    LastCode = 1000
    Eof = 2000
    MaxLen = 6
INVARIANTS Synchronised EofOnlyLast
CHECK_DEADLOCK FALSE
