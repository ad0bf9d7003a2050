CONSTANTS
  Ids = {1, 2, 3, 4, 5}
  FileC <- TFile
INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK TRUE
