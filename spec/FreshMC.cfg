SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Depth = 0
  Buffered = FALSE
INVARIANTS NoReuse FromSource Full
CHECK_DEADLOCK FALSE
