SPECIFICATION Spec
INVARIANT Conforms
INVARIANT ArsInv
