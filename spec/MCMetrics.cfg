SPECIFICATION Spec
CONSTANTS
    MaxPixels = 3
    Sizes = {1, 70000}
INVARIANTS SameSum RightAccepted WrongRejected
