SPECIFICATION Spec
CONSTANTS Ts = {1, 2, 3, 4, 6, 8}
 Cs = {}
 Rs = {}
 Limits = {100000000, 1500, 500, 0}
 MaxOps = 6
VIEW View
INVARIANT TpInv
PROPERTY Fair
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
