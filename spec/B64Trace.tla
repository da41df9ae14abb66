------------------------------ MODULE B64Trace ------------------------------
(* Validates recorded encodings, decodings and reads against the one-shot     *)
(* definition of web-safe Base64 in Base64.tla.  Decides C12.                 *)
EXTENDS TraceBase, Base64
VARIABLES l, bad
C(cond, clause) == If(cond, "C12", clause)
EncClauses(x) ==
       C(x.ok, "encoding failed: " \o x.via)
  \cup C(~x.ok \/ InAlphabet(x.out), "a character outside the web-safe alphabet: " \o x.via)
  \cup C(~x.ok \/ x.out = Enc(x.data), "the encoding differs: " \o x.via)
DecClauses(x) ==
  LET s == Strip(x.text)
  IN     C(LegalLen(s) => x.ok, "decoding failed: " \o x.via)
    \cup C((x.ok /\ LegalLen(s)) => x.out = Dec(s), "the decoding differs: " \o x.via)
    \cup C(LegalLen(s) \/ ~x.ok, "an impossible length was decoded: " \o x.via)
    \cup C(LegalLen(s) \/ x.ok \/ x.err = "Base64DecodingError", "an impossible length raised another error: " \o x.via)
\* reads of a stream reader: p is what was delivered before the read
ReadClauses(x) ==
  LET s == Strip(x.text)
      legal == LegalLen(s)
      whole == IF legal THEN Dec(s) ELSE Dec(SubSeq(s, 1, Len(s) - 1))
      rs == x.reads
      Ends(y) == y.kind = "end" /\ y.size # 0 /\ y.chars # 0
  IN     C(\A i \in DOMAIN rs : rs[i].kind = "data" => IsPrefixB(rs[i].sofar, whole), "the stream reader delivered other bytes")
    \cup C(\A i \in DOMAIN rs : rs[i].chars >= 0 => rs[i].got <= rs[i].chars, "a read returned more than the requested characters")
    \cup C(\A i \in DOMAIN rs : Ends(rs[i]) => legal /\ rs[i].sofar = whole, "the stream reader reported its end early")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "error" => ~legal /\ rs[i].err = "Base64DecodingError", "the stream reader failed")
    \cup C(\A i \in DOMAIN rs : rs[i].kind \in {"data", "end", "none", "error"}, "the stream reader returned something else")
    \cup C(rs # <<>> /\ LET y == rs[Len(rs)] IN IF legal THEN Ends(y) \/ y.kind = "error" ELSE y.kind = "error", "the stream reader never ended")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "none" => ~rs[i].eof \/ rs[i].chars = 0 \/ rs[i].size = 0, "nothing-yet after the end of the source")
\* long streams, by length and digest
BigClauses(x) == C(x.got = x.want, "a long stream differs: " \o x.via)
Item(x) == CASE x.k = "enc" -> EncClauses(x) [] x.k = "dec" -> DecClauses(x) [] x.k = "big" -> BigClauses(x) [] OTHER -> ReadClauses(x)
Fails(e) == IF e.ev = "items" THEN UNION {Item(e.list[i]) : i \in DOMAIN e.list} ELSE {}
Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(Trace[l]))
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
