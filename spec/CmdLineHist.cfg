SPECIFICATION HSpec
CONSTANTS
  MaxTok = 0
  MaxKeys = 0
  Rich = 2
  Depth = 30
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
