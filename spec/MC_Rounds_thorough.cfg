SPECIFICATION Spec
CONSTANTS MAXV = 2000000000
 T0 = 500000000
 MINST = 10000
 MAXST = 10000000
 Lenient = FALSE
 Depth = 6
 Eras = {17, 18, 20, 21}
 Main = 0
 Wits = {1, 2}
 Said = {1, 2, 200}
 Filters = {0, 1}
 Wips = {1, 2}
 Quorums = {51}
 MaxDrs = 1
VIEW View
INVARIANT Inv
INVARIANT Progress
PROPERTY Fresh
PROPERTY Forward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
