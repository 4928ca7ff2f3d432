SPECIFICATION Spec
CONSTANTS Ts = {1, 3, 4, 5}
 Cs = {}
 Rs = {}
 Limits = {100000000, 700}
 MaxOps = 6
VIEW View
INVARIANT TpInv
PROPERTY Fair
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
