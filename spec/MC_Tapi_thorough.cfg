SPECIFICATION Spec
CONSTANTS Slots <- SlotsT
 Ends = {8, 14}
 MaxEpoch = 14
 MaxOps = 8
VIEW View
INVARIANT VotesInv
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
