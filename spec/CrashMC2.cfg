SPECIFICATION Spec
CONSTANTS
  MaxVers = 3
  MaxKeys = 4
  Vias = {"", "A"}
  Proto = "rename"
CONSTRAINT Bound
INVARIANTS AlwaysLoadable BeforeOrAfter AfterAbort Complete LoadSees LoadFails
CHECK_DEADLOCK FALSE
