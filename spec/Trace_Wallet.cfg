SPECIFICATION Spec
INVARIANTS Conforms WalletInv
CHECK_DEADLOCK TRUE
