SPECIFICATION Spec
CONSTANTS MaxN = 7  MaxGaps = 2  MaxWhite = 2  Extra = TRUE
INVARIANTS EncoderWhole DecoderWhole DecoderPrefix ReaderPrefix ReaderEnd ReaderError ReaderBound
CHECK_DEADLOCK FALSE
