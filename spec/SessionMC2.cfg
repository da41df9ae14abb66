SPECIFICATION Spec
CONSTANTS MaxSess = 2  MaxMsg = 3  MaxDec = 1  MaxKeys = 2
INVARIANTS Bound Delivered
CHECK_DEADLOCK FALSE
