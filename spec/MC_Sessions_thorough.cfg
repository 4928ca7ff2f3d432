SPECIFICATION Spec
CONSTANTS Addrs = {1, 2, 3}
 Lims = {0, 1, 2}
 MaxOps = 7
VIEW View
INVARIANT SessInv
PROPERTY Within
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
