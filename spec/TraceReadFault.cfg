CONSTANT Unknown = 0
INIT TInit
NEXT TNext
CHECK_DEADLOCK TRUE
