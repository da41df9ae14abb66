SPECIFICATION HSpec
CONSTANTS
  MaxAlgs = 3
  MaxOps = 3
  MaxImpls = 2
  MaxRules = 2
  Rich = TRUE
INVARIANTS PrintCfg
CHECK_DEADLOCK FALSE
