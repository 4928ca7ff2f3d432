SPECIFICATION Spec
CONSTANTS MaxFields = 2
 AlsoSet = {"none", "doc", "conv"}
 TwoPass = {"none", "default"}
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
