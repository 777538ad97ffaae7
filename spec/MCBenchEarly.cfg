SPECIFICATION Spec
CONSTANTS
    Tasks = 3
    Threads = 2
    Outcomes <- SomeOutcomes
    Locked = TRUE
    Early = TRUE
INVARIANTS GoodReport
CHECK_DEADLOCK FALSE
