SPECIFICATION GenSpec
CONSTANTS
    Base = 2
    LastCode = 1000
    Eof = 2000
    MaxLen = 10
INVARIANTS Synchronised EofOnlyLast NoDuplicates
CHECK_DEADLOCK FALSE
