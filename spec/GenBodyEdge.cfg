CONSTANTS
  Ids = {1, 2}
  FileC <- GFile3
  MaxPut = 2
  MaxFresh = 3
  Faults = {"none"}
  Depth = 0
  Ops <- AllOps
INIT GInit
NEXT EdgeNext
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
