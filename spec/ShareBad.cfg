SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
Steps = 4
Scratch = TRUE
INVARIANTS SameAsAlone SetUnchanged
CHECK_DEADLOCK FALSE
