CONSTANTS
  Focus = "all"
  Mixes = {}
  Permits = {}
  Holds = 0
  Env = {}
INIT DInit
NEXT DNext
CHECK_DEADLOCK FALSE
