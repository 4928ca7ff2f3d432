SPECIFICATION Spec
CONSTANTS MaxPending = 12
 Payloads = {0, 1, 2, 7, 1000}
INVARIANT Wakes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
