SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK TRUE
