SPECIFICATION Spec
CONSTANTS MaxVers = 3
 MaxKeys = 3
 MaxA = 3
CONSTRAINT Bound
INVARIANTS AllSealed ForeignNeverReads Uniform
PROPERTIES StaysSealed OnlyWithCrypter RotationSafe
CHECK_DEADLOCK FALSE
