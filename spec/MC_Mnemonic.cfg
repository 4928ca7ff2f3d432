SPECIFICATION Spec
CONSTANTS Counts = {0, 1, 3, 9, 11, 12, 13, 14, 15, 16, 18, 21, 23, 24, 25, 27}
 Passes = {"", "TREZOR", "a b"}
 Variants = {0, 1, 2}
INVARIANT AcceptedIsWellFormed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
