INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- Sub2Alphabet
  Ghost0 <- Sub2Ghost0
  Ghost <- Sub2Ghost
  Inv <- Sub2Inv
