SPECIFICATION Spec
CONSTANTS Id = {"a", "b"}
 Caps = {1, 2, 3, 5}
 Epochs = {0, 1, 2, 3, 4, 6, 9, 65537}
 MaxOps = 4
VIEW View
INVARIANT ArsInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
