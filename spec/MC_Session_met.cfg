SPECIFICATION Spec
CONSTANTS Types = {"in", "out"}
 From = {"met"}
 Steps = 4
 Words = "chat"
VIEW View
CONSTRAINT Said
INVARIANT Rules
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
