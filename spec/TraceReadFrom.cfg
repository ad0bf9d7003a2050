CONSTANT Focus <- FocusEnv
INIT TInit
NEXT TNext
VIEW TView
INVARIANTS MaxRespected RamRespected ResultExact Complete
CHECK_DEADLOCK TRUE
