SPECIFICATION Spec
CONSTANTS
    MaxLen = 8
    Chars = {"(", ")", ",", "a"}
INVARIANTS SameLanguage Lossless Pieces
PROPERTY BadForEver
CHECK_DEADLOCK FALSE
