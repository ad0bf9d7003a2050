CONSTANTS
  Ex = {1, 2}
  Items = 2
  K = 1
  Over = FALSE
  Quits = {1}
SPECIFICATION ASpec
INVARIANTS Order Conserved Useful Stuck
PROPERTY Ends2
CHECK_DEADLOCK FALSE
