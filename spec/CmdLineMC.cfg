SPECIFICATION Spec
CONSTANTS
  MaxTok = 3
  MaxKeys = 2
  Rich = 0
  Depth = 0
VIEW View
INVARIANT AllWellFormed
PROPERTIES Inert Confined NeverPlain OrderFree OnlyOwn
CHECK_DEADLOCK FALSE
