SPECIFICATION Spec
CONSTANTS MaxN = 5  MaxGaps = 1  MaxWhite = 1  Extra = TRUE
INVARIANTS EncoderWhole DecoderWhole DecoderPrefix ReaderPrefix ReaderEnd ReaderError ReaderBound
CHECK_DEADLOCK FALSE
