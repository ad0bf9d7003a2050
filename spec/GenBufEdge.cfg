CONSTANTS
  Ids = {1, 2, 3}
  N = 4
  Depth = 0
INIT GInit
NEXT EdgeNext
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Disjoint
INVARIANT Inv
CHECK_DEADLOCK FALSE
