SPECIFICATION Spec
CONSTANTS
    Digits = {"0", "7"}
    MaxDigits = 1
    Edits = {"(", ")", "c", "e", "0", ".", "-", "h", " "}
INVARIANTS WordsAccepted OthersNot
CHECK_DEADLOCK FALSE
