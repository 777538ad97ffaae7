SPECIFICATION Spec
CONSTANTS
    Threads = {t1, t2}
    Codecs = {c1, c2}
    Images = {i1, i2}
    MaxCalls = 3
    Steps = 2
    Shared = FALSE
    Leaky = FALSE
INVARIANTS AsFresh Unique
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
