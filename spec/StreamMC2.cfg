SPECIFICATION Spec
CONSTANTS BS = 3  HL = 4  HD = 2  OVER = 2  MaxN = 9  MaxWrite = 9  Wants <- W4  Damage = FALSE  MaxGaps = 3
INVARIANTS WriterHonest InOrder EndOnlyAtEnd NoErrorIfIntact NeverTooMuch Contract UntouchedPrefix LastBlockAfterSignature
PROPERTY Settles
CHECK_DEADLOCK FALSE
