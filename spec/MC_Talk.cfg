SPECIFICATION FairSpec
CONSTANTS Ahead2 <- Those
 Loss = 0
 Extra = 2
INVARIANT Sane Kind
PROPERTY Met Synced Silence
CHECK_DEADLOCK FALSE
