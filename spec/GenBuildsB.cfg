CONSTANTS
  Bodies = {1, 2, 3}
  Dialogs = {1, 2}
  Archives = {1, 2}
  Depth = 40
  MaxLen = 7
  MaxRecs = 5
  Brotli = TRUE
INIT BGInit
NEXT BSimNext
CHECK_DEADLOCK FALSE
