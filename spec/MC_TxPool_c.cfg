SPECIFICATION Spec
CONSTANTS Ts = {}
 Cs = {1, 2, 3, 4, 5, 6, 7}
 Rs = {}
 Limits = {}
 MaxOps = 8
VIEW View
INVARIANT TpInv
PROPERTY Fair
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
