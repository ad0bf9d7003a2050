CONSTANTS
  Shared = {1, 2}
  Threads = {1, 2, 3, 4}
  Build = 14
  Depth = 70
  Ids <- GIds
  FileC <- GFile
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
