CONSTANT Fam = "large"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
