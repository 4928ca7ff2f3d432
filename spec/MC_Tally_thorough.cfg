SPECIFICATION Spec
INVARIANT Same
ACTION_CONSTRAINT Emit
CONSTANTS
  Size = 4
  Mins = {1, 34, 50, 51, 75, 99}
  Few = TRUE
CHECK_DEADLOCK FALSE
