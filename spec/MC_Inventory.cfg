SPECIFICATION Spec
CONSTANTS Words = "keep"
 Steps = 4
VIEW View
CONSTRAINT Short
INVARIANT Rules
PROPERTY Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
