SPECIFICATION Spec
INVARIANTS Conforms Rules
CHECK_DEADLOCK TRUE
