SPECIFICATION Spec
CONSTANTS Addrs = {1, 2, 3, 5, 6}
 Srcs = {0, 4}
 MaxOps = 5
VIEW View
INVARIANT PeersInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
