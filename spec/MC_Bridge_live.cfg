SPECIFICATION FairSpec
CONSTANTS Kinds = {"g", "gj"}
 Batch = 2
 Faults = 1
 Times = 1
 Others = 0
 Crashes = 0
 Keep = ""
PROPERTY Served
CHECK_DEADLOCK FALSE
