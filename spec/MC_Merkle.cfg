SPECIFICATION Spec
CONSTANTS MaxDistinct = 70
 MaxWord = 6
 MaxForge = 3
INVARIANT Design
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
