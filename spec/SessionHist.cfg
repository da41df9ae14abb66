SPECIFICATION HSpec
CONSTANTS MaxSess = 6  MaxMsg = 20  MaxDec = 8  MaxKeys = 5  Depth = 40
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
