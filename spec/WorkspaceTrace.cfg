SPECIFICATION TSpec
CONSTANTS
    Codecs = {1, 2, 3, 4, 5, 6}
    Images = {1, 2, 3, 4, 5, 6}
    Lossy = {4, 5, 6}
    Plain = {4}
    Bad = {5, 6}
CHECK_DEADLOCK TRUE
