SPECIFICATION HSpec
CONSTANTS BS = 16  HL = 20  HD = 5  OVER = 0  MaxN = 60  MaxWrite = 60  Wants <- W3  Damage = TRUE  MaxGaps = 6
CHECK_DEADLOCK FALSE
