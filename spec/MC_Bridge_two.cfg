SPECIFICATION Spec
CONSTANTS Kinds = {"gj", "jr"}
 Batch = 2
 Faults = 1
 Times = 1
 Others = 0
 Crashes = 0
 Keep = "stale"
VIEW View
INVARIANT BridgeInv
PROPERTY Final
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
