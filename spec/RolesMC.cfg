SPECIFICATION Spec
CONSTANT MaxVers = 2
INVARIANTS NoExtraRight PublicStaysPublic Monotone SealedNeedsSealReader OnePrimary Out
CHECK_DEADLOCK FALSE
