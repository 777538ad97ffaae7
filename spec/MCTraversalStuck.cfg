SPECIFICATION Spec
CONSTANTS
    MaxW = 3
    MaxH = 3
INVARIANTS Stuck SmallVariant
CHECK_DEADLOCK FALSE
