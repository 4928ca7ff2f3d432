SPECIFICATION Spec
CONSTANTS Starts = {0, 1, 2, 3}
 MaxOps = 7
 Unc = TRUE
 Patience = 0
VIEW View
INVARIANT WalletInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
