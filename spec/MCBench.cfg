SPECIFICATION Spec
CONSTANTS
    Tasks = 3
    Threads = 2
    Outcomes <- AllOutcomes
    Locked = TRUE
    Early = FALSE
INVARIANTS GoodReport Reported Pictures
PROPERTY Completes
CHECK_DEADLOCK FALSE
