SPECIFICATION Spec
CONSTANTS
    MaxA = 60
    MaxB = 40
INVARIANTS Recognised Others Sums
