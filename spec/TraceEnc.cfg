INIT TInit
NEXT TNext
CHECK_DEADLOCK TRUE
