CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  FileC <- GFile
  MaxPut = 3
  MaxFresh = 90
  Faults = {"none"}
  Depth = 30
  Ops <- AllOps
INIT GInit
NEXT SimNext
CHECK_DEADLOCK FALSE
