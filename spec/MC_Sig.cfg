SPECIFICATION Spec
CONSTANTS Keys = {"0000000000000000000000000000000000000000000000000000000000000001", "cdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcd", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"}
 Msgs = {"0000000000000000000000000000000000000000000000000000000000000001", "abababababababababababababababababababababababababababababababab", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ababababababababababababababababababababababababababababababab", "abababababababababababababababababababababababababababababababab00", ""}
 Tampers = {1, 300, 512}
 MaxOps = 3
VIEW View
INVARIANT Unforgeable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
