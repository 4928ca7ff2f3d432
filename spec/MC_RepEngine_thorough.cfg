SPECIFICATION Spec
CONSTANTS People = {1, 2, 3}
 Miners = {1, 3}
 Caps = {2}
 Diffs = {1, 3}
 Skips = {1, 2}
 MaxOps = 2
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
