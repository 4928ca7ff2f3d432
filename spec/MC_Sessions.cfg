SPECIFICATION Spec
CONSTANTS Addrs = {1, 2, 3}
 Lims = {1, 2}
 MaxOps = 5
VIEW View
INVARIANT SessInv
PROPERTY Within
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
