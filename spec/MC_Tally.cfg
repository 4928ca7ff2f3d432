SPECIFICATION Spec
INVARIANT Same
ACTION_CONSTRAINT Emit
CONSTANTS
  Size = 3
  Mins = {20, 51, 67}
  Few = TRUE
CHECK_DEADLOCK FALSE
