-------------------------------- MODULE B64MC -------------------------------
(* Every split of the input of the encoder and decoder, every delivery of the *)
(* text (with gaps and white space) to the reader, every request.             *)
EXTENDS B64Stream
CONSTANTS MaxN, MaxGaps, MaxWhite, Extra
VARIABLES n, stage, ebuf, eout, fed, text, white, pos, r, gaps, got, dbuf, dout, dpos, dok
vars == <<n, stage, ebuf, eout, fed, text, white, pos, r, gaps, got, dbuf, dout, dpos, dok>>
Init == /\ n \in 0 .. MaxN /\ stage = "enc" /\ ebuf = <<>> /\ eout = <<>> /\ fed = 0 /\ text = <<>> /\ white = 0
        /\ pos = 0 /\ r = RdNew /\ gaps = 0 /\ got = <<>> /\ dbuf = <<>> /\ dout = <<>> /\ dpos = 0 /\ dok = TRUE
Encode == /\ stage = "enc" /\ fed < n
          /\ \E k \in 1 .. (n - fed) : LET s == EncStep(ebuf, BSeg(fed + 1, fed + k), FALSE)
                                       IN eout' = eout \o s.out /\ ebuf' = s.buf /\ fed' = fed + k
          /\ UNCHANGED <<n, stage, text, white, pos, r, gaps, got, dbuf, dout, dpos, dok>>
Finish == /\ stage = "enc" /\ fed = n /\ LET s == EncStep(ebuf, <<>>, TRUE) IN eout' = eout \o s.out /\ ebuf' = s.buf
          /\ stage' = "text" /\ UNCHANGED <<n, fed, text, white, pos, r, gaps, got, dbuf, dout, dpos, dok>>
\* the text that arrives: the encoding, with white space, possibly with an
\* extra character that makes the length impossible
Insert(s, i) == SubSeq(s, 1, i) \o <<0>> \o SubSeq(s, i + 1, Len(s))
Texts(s) == {s} \cup {Insert(s, i) : i \in 0 .. Len(s)}
Text == /\ stage = "text" /\ stage' \in {"dec", "read"}
        /\ \E t \in (IF MaxWhite = 0 THEN {eout} ELSE IF MaxWhite = 1 THEN Texts(eout) ELSE UNION {Texts(q) : q \in Texts(eout)}) :
             \E x \in (IF Extra THEN {0, 1} ELSE {0}) :
               text' = IF x = 1 /\ CharsOf(n) % 4 = 0 THEN Append(t, CharsOf(n) + 1) ELSE t
        /\ UNCHANGED <<n, ebuf, eout, fed, white, pos, r, gaps, got, dbuf, dout, dpos, dok>>
Decode == /\ stage = "dec" /\ dok /\ dpos < Len(text)
          /\ \E k \in 1 .. (Len(text) - dpos) : \E f \in (IF dpos + k = Len(text) THEN {TRUE, FALSE} ELSE {FALSE}) :
               LET s == DecStep(dbuf, SubSeq(text, dpos + 1, dpos + k), f)
               IN dout' = dout \o s.out /\ dbuf' = s.buf /\ dpos' = dpos + k /\ dok' = s.ok
          /\ UNCHANGED <<n, stage, ebuf, eout, fed, text, white, pos, r, gaps, got>>
DFlush == /\ stage = "dec" /\ dok /\ dpos = Len(text)
          /\ LET s == DecStep(dbuf, <<>>, TRUE) IN dout' = dout \o s.out /\ dbuf' = s.buf /\ dok' = s.ok
          /\ stage' = "decoded" /\ UNCHANGED <<n, ebuf, eout, fed, text, white, pos, r, gaps, got, dpos>>
Sizes == {-1, 0, 1, 3, 5}
Wants == {-1, 0, 1, 2, 5}
Request == /\ stage = "read" /\ r.pc = "idle" /\ r.res \notin {"end", "error"}
           /\ \E s \in Sizes, c \in Wants : r' = Ask(r, s, c) /\ got' = got \o r'.ret
           /\ UNCHANGED <<n, stage, ebuf, eout, fed, text, white, pos, gaps, dbuf, dout, dpos, dok>>
Source ==
  /\ stage = "read" /\ r.pc = "wait"
  /\ \/ gaps < MaxGaps /\ gaps' = gaps + 1 /\ r' = Got(r, "none", <<>>) /\ pos' = pos
     \/ (pos = Len(text) \/ r.size = 0) /\ r' = Got(r, "text", <<>>) /\ UNCHANGED <<gaps, pos>>
     \/ /\ pos < Len(text)
        /\ \E k \in 1 .. (IF r.size < 0 THEN Len(text) ELSE r.size) :
              pos + k <= Len(text) /\ r' = Got(r, "text", SubSeq(text, pos + 1, pos + k)) /\ pos' = pos + k
        /\ UNCHANGED gaps
  /\ got' = got \o r'.ret
  /\ UNCHANGED <<n, stage, ebuf, eout, fed, text, white, dbuf, dout, dpos, dok>>
Next == Encode \/ Finish \/ Text \/ Decode \/ DFlush \/ Request \/ Source
Spec == Init /\ [][Next]_vars

Legal == Possible(NoWhite(text))
EncoderWhole == stage # "enc" => eout = BSeg(1, CharsOf(n)) /\ eout = OneEnc(BSeg(1, n))
DecoderWhole == stage = "decoded" => (dok <=> Legal) /\ (dok => dout = BSeg(1, n))
DecoderPrefix == stage = "dec" => dout = BSeg(1, Len(dout)) /\ Len(dout) <= n
ReaderPrefix == got = BSeg(1, Len(got)) /\ Len(got) <= n
ReaderEnd == (r.res = "end" /\ r.pc = "idle") => Legal /\ Len(got) = n
ReaderError == (r.res = "error" /\ r.pc = "idle") => ~Legal
ReaderBound == (r.pc = "idle" /\ r.chars >= 0) => Len(r.ret) <= r.chars
=============================================================================
