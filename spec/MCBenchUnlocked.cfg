SPECIFICATION Spec
CONSTANTS
    Tasks = 3
    Threads = 2
    Outcomes <- SomeOutcomes
    Locked = FALSE
    Early = FALSE
INVARIANTS GoodReport
CHECK_DEADLOCK FALSE
