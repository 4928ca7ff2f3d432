SPECIFICATION Spec
CONSTANTS Strict = TRUE
INVARIANT Conforms
CHECK_DEADLOCK TRUE
