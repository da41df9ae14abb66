SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Depth = 0
  Buffered = FALSE
INVARIANTS NoReuse FromSource Full
CHECK_DEADLOCK FALSE
