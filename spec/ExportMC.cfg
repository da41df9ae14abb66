SPECIFICATION Spec
CONSTANTS MaxVers = 3
 MaxKeys = 3
 Depth = 0
CONSTRAINT Bound
INVARIANTS NoPrivateType NoReExport
PROPERTIES SameView SamePrimary
CHECK_DEADLOCK FALSE
