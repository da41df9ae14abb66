SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
Steps = 3
Scratch = FALSE
INVARIANTS SameAsAlone SetUnchanged Schedules
CHECK_DEADLOCK FALSE
