SPECIFICATION Spec
CONSTANTS
    Codecs = {1, 2}
    Images = {1, 2, 3}
    Lossy = {2}
    Plain = {2}
    Bad = {3}
    Runs = 2
    MaxList = 2
    BufferSize = 1
    Appends = TRUE
    Sweeps = FALSE
    Unflushed = FALSE
    Early = FALSE
INVARIANT Fulfilled
CHECK_DEADLOCK FALSE
