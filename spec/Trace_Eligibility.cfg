SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK TRUE
