SPECIFICATION Spec
CONSTANTS Kinds = {"g"}
 Batch = 1
 Faults = 1
 Times = 1
 Others = 1
 Crashes = 1
 Keep = "stale"
VIEW View
INVARIANT BridgeInv
PROPERTY Final
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
