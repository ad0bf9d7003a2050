CONSTANTS
  Ids = {1, 2}
  FileC <- GFile2
  MaxPut = 2
  MaxFresh = 2
  Faults = {"none"}
  Depth = 0
  Ops <- FaultOps
INIT GInit
NEXT EdgeNext
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
