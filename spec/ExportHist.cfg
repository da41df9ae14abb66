SPECIFICATION HSpec
CONSTANTS MaxVers = 12
 MaxKeys = 100
 Depth = 18
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
