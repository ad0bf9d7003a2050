CONSTANTS
  Threads = {1, 2, 3, 4}
  Ids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Scans = {1, 2, 3}
INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK TRUE
