SPECIFICATION Spec
CONSTANTS
  MaxAlgs = 2
  MaxOps = 1
  MaxImpls = 2
  MaxRules = 1
  Rich = FALSE
INVARIANTS Grounded NothingIgnored Possible StarStops Full
PROPERTY Monotone
CHECK_DEADLOCK FALSE
