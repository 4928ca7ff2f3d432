SPECIFICATION Spec
CONSTANTS Id = {"a", "b"}
 Alpha = {1, 2, 3}
 Amount = {0, 1, 2}
 MaxOps = 4
VIEW View
INVARIANT TrsInv
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
