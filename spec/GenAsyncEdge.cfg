CONSTANTS
  Focus = "all"
  Mixes <- GenMixes
  Permits = {1}
  Holds = 1
  Env = {"drop", "shut", "lose"}
INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
