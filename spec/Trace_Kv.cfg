SPECIFICATION Spec
INVARIANT Conforms
INVARIANT KvInv
