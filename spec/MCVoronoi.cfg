SPECIFICATION Spec
CONSTANTS
    MaxW = 2
    MaxH = 2
    Levels = 3
    MaxSeeds = 5
INVARIANTS Bounded SingleSeed ExactWhenEnough FromSeeds
CHECK_DEADLOCK FALSE
