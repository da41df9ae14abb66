SPECIFICATION Spec
CONSTANTS MaxVers = 2
 MaxKeys = 2
 MaxA = 3
CONSTRAINT Bound
INVARIANTS AllSealed ForeignNeverReads Uniform
PROPERTIES StaysSealed OnlyWithCrypter RotationSafe
CHECK_DEADLOCK FALSE
