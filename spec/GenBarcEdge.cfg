CONSTANTS
  Handles = {1, 2}
  Readers = {1}
  Slots = {1}
  Focus = {"C06", "C08", "C14"}
  MaxRecs = 3
  Depth = 0
  C <- GC
INIT GInit
NEXT EdgeNext
VIEW View
INVARIANTS Tiled Placed
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
