SPECIFICATION Spec
CONSTANTS
    Colours <- SomeColours
    MaxCount = 2
    MaxGroups = 4
INVARIANTS AtMostN EachIsTheMean ExactWhenEnough InRange
CHECK_DEADLOCK FALSE
