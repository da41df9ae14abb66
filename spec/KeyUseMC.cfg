SPECIFICATION Spec
CONSTANTS
  MaxVers = 3
  MaxKeys = 3
  MaxOuts = 2
  Handles = {1}
CONSTRAINT Bound
INVARIANT SelfOpen
PROPERTIES LostOnlyByRevoke GoneForGood FromPrimary
CHECK_DEADLOCK FALSE
