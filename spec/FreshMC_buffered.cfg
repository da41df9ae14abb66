SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Depth = 0
  Buffered = TRUE
INVARIANTS NoReuse FromSource Full
CHECK_DEADLOCK FALSE
