SPECIFICATION HSpec
CONSTANTS
  MaxVers = 13
  MaxKeys = 1000
  Vias = {"", "A"}
  Depth = 30
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
