INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- MultiAlphabet
  Ghost0 <- MultiGhost0
  Ghost <- MultiGhost
  Inv <- MultiInv
