SPECIFICATION Spec
CONSTANT MaxVers = 4
INVARIANTS NoExtraRight PublicStaysPublic Monotone SealedNeedsSealReader OnePrimary Out
CHECK_DEADLOCK FALSE
