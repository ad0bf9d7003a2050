CONSTANTS Focus = {"C03", "C04", "C05"} MaxL = 6 MaxLim = 4 MaxBuf = 3 Room = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS MaxRespected RamRespected ResultExact Accounting
CHECK_DEADLOCK TRUE
