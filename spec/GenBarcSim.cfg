CONSTANTS
  Handles = {1, 2}
  Readers = {1, 2, 3}
  Slots = {1, 2}
  Focus = {"C06", "C08", "C14"}
  MaxRecs = 8
  Depth = 30
  C <- GC
INIT GInit
NEXT SimNext
INVARIANTS Tiled Placed
CHECK_DEADLOCK FALSE
