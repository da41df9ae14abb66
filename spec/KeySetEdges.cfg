SPECIFICATION Spec
CONSTANTS
  MaxVers = 3
  MaxKeys = 1000
  Vias = {"", "A"}
CONSTRAINT Bound
VIEW EdgeView
INVARIANT EdgeInv
CHECK_DEADLOCK FALSE
