SPECIFICATION Spec
CONSTANTS Slots <- SlotsQ
 Ends = {4, 12}
 MaxEpoch = 12
 MaxOps = 6
VIEW View
INVARIANT VotesInv
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
