SPECIFICATION Spec
VIEW LView
CHECK_DEADLOCK FALSE
