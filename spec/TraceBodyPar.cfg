CONSTANTS
  Ids = {1, 2, 11, 12, 13, 21, 22, 23, 31, 32, 33, 41, 42, 43}
  FileC <- TFile
INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK TRUE
