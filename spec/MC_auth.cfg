INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- AuthAlphabet
  Ghost0 <- AuthGhost0
  Ghost <- AuthGhost
  Inv <- AuthInv
