SPECIFICATION Spec
INVARIANT Conforms
INVARIANT TrsInv
