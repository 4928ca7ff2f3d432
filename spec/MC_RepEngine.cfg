SPECIFICATION Spec
CONSTANTS People = {1, 2}
 Miners = {1}
 Caps = {1}
 Diffs = {1, 3}
 Skips = {1}
 MaxOps = 3
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
