SPECIFICATION Spec
CONSTANTS Amounts = {0, 500, 1300}
 Fees = {0, 100}
 MaxOps = 3
VIEW View
INVARIANTS SpendInv Kept
PROPERTY Promised
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
