CONSTANTS
  Threads = {1, 2}
  Ids = {1, 2}
  Scans = {1, 2}
  Payload = 1
  MayFail = TRUE
  MayCrash = TRUE
  Twice = TRUE
  Last = TRUE
INIT AInit
NEXT ANext
INVARIANT Guaranteed
CHECK_DEADLOCK FALSE
