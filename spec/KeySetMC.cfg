SPECIFICATION Spec
CONSTANTS
  MaxVers = 4
  MaxKeys = 5
  Vias = {"", "A"}
CONSTRAINT Bound
VIEW MCView
INVARIANT Inv
PROPERTIES FailedIsNoop RevokeOnlyInactive OneStep CreateOnce KeyStable NewIsMax LoseOnlyRevoked SealedStaysSealed
CHECK_DEADLOCK FALSE
