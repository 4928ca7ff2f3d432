SPECIFICATION Spec
CONSTANTS Keys <- KeysQ
 Amounts = {2, 8}
 Rounds = {1, 2}
 Times = {0, 3}
 MaxOps = 4
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
