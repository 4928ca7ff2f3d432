SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Emit
CONSTANTS
  Brief = FALSE
CHECK_DEADLOCK FALSE
