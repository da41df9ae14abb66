SPECIFICATION Spec
CONSTANTS
  MaxVers = 2
  MaxKeys = 3
  Vias = {"", "A"}
  Proto = "metafirst"
CONSTRAINT Bound
INVARIANTS AlwaysLoadable BeforeOrAfter AfterAbort Complete LoadSees LoadFails
CHECK_DEADLOCK FALSE
