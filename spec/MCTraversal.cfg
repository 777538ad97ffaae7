SPECIFICATION Spec
CONSTANTS
    MaxW = 4
    MaxH = 4
INVARIANTS NoneTwice UnitSteps Covers LargeVariant
CHECK_DEADLOCK FALSE
