SPECIFICATION Spec
CONSTANTS BS = 3  HL = 4  HD = 2  OVER = 2  MaxN = 7  MaxWrite = 7  Wants <- W4  Damage = FALSE  MaxGaps = 2
INVARIANTS WriterHonest InOrder EndOnlyAtEnd NoErrorIfIntact NeverTooMuch Contract UntouchedPrefix LastBlockAfterSignature
PROPERTY Settles
CHECK_DEADLOCK FALSE
