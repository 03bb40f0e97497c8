INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- RolesAlphabet
  Ghost0 <- RolesGhost0
  Ghost <- RolesGhost
  Inv <- RolesInv
