CONSTANTS
  Bodies = {1, 2, 3}
  Dialogs = {1, 2}
  Archives = {1, 2}
  Depth = 40
  MaxLen = 7
  MaxRecs = 4
INIT GInit
NEXT SimNext
CHECK_DEADLOCK FALSE
