SPECIFICATION Spec
CONSTANTS Epochs = {0, 5, 10}
 MaxOps = 4
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
