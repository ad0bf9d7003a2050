CONSTANTS
  Focus = "all"
  Mixes <- LiveMixes
  Permits = {1, 2}
  Holds = 1
  Env = {"drop"}
SPECIFICATION Live
PROPERTY AllComplete
CHECK_DEADLOCK FALSE
