INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- LimAlphabet
  Ghost0 <- LimGhost0
  Ghost <- LimGhost
  Inv <- LimInv
