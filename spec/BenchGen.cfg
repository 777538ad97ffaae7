SPECIFICATION GSpec
CONSTANTS
    Tasks = 3
    Threads = 2
    Outcomes <- AllOutcomes
    Locked = TRUE
    Early = FALSE
CHECK_DEADLOCK FALSE
