SPECIFICATION Spec
CONSTANTS Types = {"in", "out", "feel"}
 From = {"fresh"}
 Steps = 6
 Words = "shake"
VIEW View
CONSTRAINT Said
INVARIANT Rules
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
