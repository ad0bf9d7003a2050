CONSTANTS
  Bodies = {1, 2, 3}
  Dialogs = {1, 2}
  Archives = {1, 2}
INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK TRUE
