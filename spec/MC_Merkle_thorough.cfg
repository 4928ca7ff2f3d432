SPECIFICATION Spec
CONSTANTS MaxDistinct = 140
 MaxWord = 9
 MaxForge = 4
INVARIANT Design
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
