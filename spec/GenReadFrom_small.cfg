CONSTANT Fam = "small"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
