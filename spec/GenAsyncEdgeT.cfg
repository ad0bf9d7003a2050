CONSTANTS
  Focus = "all"
  Mixes <- BigMixes
  Permits = {1, 2}
  Holds = 1
  Env = {"drop", "shut", "lose"}
INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
