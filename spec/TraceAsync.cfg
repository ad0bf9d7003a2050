CONSTANTS
  Focus <- FocusE
INIT TInit
NEXT TNext
CHECK_DEADLOCK TRUE
