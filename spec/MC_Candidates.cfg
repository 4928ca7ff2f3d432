SPECIFICATION Spec
CONSTANTS Hashes = {1, 2}
 Draws = {0, 1, 2}
 Reps = {0, 1, 5}
 Powers_ = {1, 2}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
