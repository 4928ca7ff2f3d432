SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 Whos = {1, 2}
 Extras = {0, 1}
 Vals = {8, 3}
 MaxOps = 9
VIEW View
INVARIANT DqInv
PROPERTY Forward OnlyTally Separate
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
