SPECIFICATION Spec
CONSTANTS Words = "ask"
 Steps = 4
VIEW View
CONSTRAINT Short
INVARIANT Rules
PROPERTY Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
