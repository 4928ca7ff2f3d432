SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
 Wdrs = {1, 2}
 Amounts = {1, 2, 5}
 Units = {1, 2}
 Mins = {2}
 MaxAt = 4
 MaxOps = 4
VIEW View
INVARIANT StakesInv
PROPERTY RefusedChangesNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
