CONSTANTS
  Slots = {1, 2, 3, 4, 5}
  Depth = 30
INIT GInit
NEXT SimNext
CHECK_DEADLOCK FALSE
