SPECIFICATION Spec
INVARIANT Inv
CONSTANT Wide = TRUE
