CONSTANTS
  Focus = "all"
  Mixes <- MCMixes
  Permits = {1, 2}
  Holds = 2
  Env = {"drop", "shut", "lose", "spur"}
INIT SInit
NEXT SNext
INVARIANT Conforms
INVARIANT Sound
CHECK_DEADLOCK FALSE
