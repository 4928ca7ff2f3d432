SPECIFICATION Spec
CONSTANTS Keys = {"0000000000000000000000000000000000000000000000000000000000000001", "cdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcdcd", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"}
 Msgs = {"0000000000000000000000000000000000000000000000000000000000000001", "abababababababababababababababababababababababababababababababab", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ababababababababababababababababababababababababababababababab", "abababababababababababababababababababababababababababababababab00", ""}
 Tampers = {1, 2, 3, 4, 40, 300, 511, 512}
 MaxOps = 5
VIEW View
INVARIANT Unforgeable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
