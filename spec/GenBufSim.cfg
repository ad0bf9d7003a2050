CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6}
  N = 17
  Depth = 25
INIT GInit
NEXT SimNext
CHECK_DEADLOCK FALSE
