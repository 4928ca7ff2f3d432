SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Emit
CONSTANTS
  Brief = TRUE
CHECK_DEADLOCK FALSE
