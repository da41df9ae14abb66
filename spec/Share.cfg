SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
Steps = 4
Scratch = FALSE
INVARIANTS SameAsAlone SetUnchanged Schedules
CHECK_DEADLOCK FALSE
