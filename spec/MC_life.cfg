INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- LifeAlphabet
  Ghost0 <- LifeGhost0
  Ghost <- LifeGhost
  Inv <- LifeInv
