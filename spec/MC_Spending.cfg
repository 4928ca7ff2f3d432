SPECIFICATION Spec
CONSTANTS Amounts = {0, 500, 1300}
 Fees = {0, 100}
 MaxOps = 2
VIEW View
INVARIANTS SpendInv Kept
PROPERTY Promised
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
