SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3, 4}
 Owners = {1, 2}
 Values = {5}
 MaxBlk = 3
 MaxOps = 11
VIEW View
INVARIANT UtxoInv
PROPERTY NoResurrection
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
