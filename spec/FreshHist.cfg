SPECIFICATION HSpec
CONSTANTS
  MaxOps = 5
  Depth = 40
  Buffered = FALSE
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
