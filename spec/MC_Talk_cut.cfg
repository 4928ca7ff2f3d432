SPECIFICATION FairSpec
CONSTANTS Ahead2 <- Those
 Loss = 1
 Extra = 2
INVARIANT Sane Kind
PROPERTY Met Synced Silence
CHECK_DEADLOCK FALSE
