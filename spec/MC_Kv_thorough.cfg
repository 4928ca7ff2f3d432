SPECIFICATION Spec
CONSTANTS Keys = {"k", "k00", "k0000", "k01", "kff", "kffff"}
 Values = {"k", "k01"}
 Prefixes = {"k", "k00", "k0000", "k01", "k02", "kff", "kffff"}
 MaxOps = 6
VIEW View
INVARIANT KvInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
