SPECIFICATION HSpec
CONSTANTS MaxN = 14  MaxGaps = 5  MaxWhite = 2  Extra = TRUE
CHECK_DEADLOCK FALSE
