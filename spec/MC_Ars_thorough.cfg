SPECIFICATION Spec
CONSTANTS Id = {"a", "b"}
 Caps = {1, 2, 3, 4}
 Epochs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 MaxOps = 7
VIEW View
INVARIANT ArsInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
