INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- Sub1Alphabet
  Ghost0 <- Sub1Ghost0
  Ghost <- Sub1Ghost
  Inv <- Sub1Inv
