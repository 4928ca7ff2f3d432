SPECIFICATION Spec
CONSTANTS Kinds = {"jr"}
 Batch = 2
 Faults = 2
 Times = 1
 Others = 1
 Crashes = 1
 Keep = ""
VIEW View
INVARIANT BridgeInv
PROPERTY Final
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
