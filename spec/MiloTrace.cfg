SPECIFICATION TSpec
CHECK_DEADLOCK TRUE
ALIAS Report
