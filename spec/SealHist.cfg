SPECIFICATION HSpec
CONSTANTS MaxVers = 4
 MaxKeys = 100
 MaxA = 9
 Depth = 24
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
