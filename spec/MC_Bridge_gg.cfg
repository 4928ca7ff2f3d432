SPECIFICATION Spec
CONSTANTS Kinds = {"gg"}
 Batch = 2
 Faults = 1
 Times = 1
 Others = 0
 Crashes = 0
 Keep = ""
VIEW View
INVARIANT BridgeInv
PROPERTY Final
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
