CONSTANTS
  Depth = 24
INIT GInit
NEXT SimNext
CHECK_DEADLOCK FALSE
