SPECIFICATION Spec
CONSTANT Runs = 2
INVARIANT Rules
CHECK_DEADLOCK FALSE
