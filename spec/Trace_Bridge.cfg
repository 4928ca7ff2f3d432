SPECIFICATION Spec
INVARIANTS Conforms BridgeInv
PROPERTY Final
CHECK_DEADLOCK TRUE
