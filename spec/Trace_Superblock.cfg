SPECIFICATION Spec
CONSTANTS Strict = FALSE
INVARIANT Conforms
CHECK_DEADLOCK TRUE
