SPECIFICATION BSpec
CHECK_DEADLOCK FALSE
