CONSTANTS
  Handles = {1, 2}
  Readers = {1, 2, 3}
  Slots = {1, 2}
  Focus <- FocusEnv
  C <- TC
INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK TRUE
