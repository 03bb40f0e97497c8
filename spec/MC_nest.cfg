INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- NestAlphabet
  Ghost0 <- NestGhost0
  Ghost <- NestGhost
  Inv <- NestInv
