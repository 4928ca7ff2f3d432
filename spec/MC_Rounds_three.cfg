SPECIFICATION Spec
CONSTANTS MAXV = 2000000000
 T0 = 500000000
 MINST = 10000
 MAXST = 10000000
 Lenient = FALSE
 Depth = 5
 Eras = {17, 20}
 Main = 0
 Wits = {3}
 Said = {1, 100}
 Filters = {1}
 Wips = {2}
 Quorums = {51}
 MaxDrs = 1
VIEW View
INVARIANT Inv
INVARIANT Progress
PROPERTY Fresh
PROPERTY Forward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
