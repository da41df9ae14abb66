SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS C05 C06 Complete Emit
CONSTANTS
 MaxAltered = 6
 Emitting = TRUE
CHECK_DEADLOCK FALSE
