SPECIFICATION Spec
INVARIANT Conforms
INVARIANT OneToOne
