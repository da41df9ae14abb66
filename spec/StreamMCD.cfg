SPECIFICATION Spec
CONSTANTS BS = 3  HL = 4  HD = 2  OVER = 2  MaxN = 4  MaxWrite = 7  Wants <- W5  Damage = TRUE  MaxGaps = 1
INVARIANTS WriterHonest InOrder EndOnlyAtEnd NoErrorIfIntact NeverTooMuch Contract UntouchedPrefix LastBlockAfterSignature

CHECK_DEADLOCK FALSE
