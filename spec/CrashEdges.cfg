SPECIFICATION ESpec
CONSTANTS
  MaxVers = 3
  MaxKeys = 1000
  Vias = {"", "A"}
  Proto = "rename"
CONSTRAINT Bound
VIEW EdgeView
INVARIANT PrintEdges
CHECK_DEADLOCK FALSE
