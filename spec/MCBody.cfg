CONSTANTS
  Ids = {1, 2, 3}
  FileC <- MCFile
  MaxPut = 2
  MaxFresh = 3
  Faults = {"none", "hard"}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK NoEmptyFile ReaderTail
PROPERTIES Independent
CHECK_DEADLOCK FALSE
