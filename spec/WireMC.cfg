SPECIFICATION Spec
INVARIANT Inv
CONSTANT Wide = FALSE
