SPECIFICATION Spec
CONSTANTS
  MaxVers = 2
  MaxKeys = 3
CONSTRAINT Bound
INVARIANT Inv
PROPERTY Others
CHECK_DEADLOCK FALSE
