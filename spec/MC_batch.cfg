INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- BatchAlphabet
  Ghost0 <- BatchGhost0
  Ghost <- BatchGhost
  Inv <- BatchInv
