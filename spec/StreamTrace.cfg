SPECIFICATION Spec
CONSTANTS BS = 16  HL = 20  HD = 5  OVER = 0
CHECK_DEADLOCK FALSE
