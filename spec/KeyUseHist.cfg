SPECIFICATION HSpec
CONSTANTS
  MaxVers = 5
  MaxKeys = 1000
  MaxOuts = 1000
  Handles = {1, 2, 3}
  Depth = 26
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
