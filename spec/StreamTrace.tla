---------------------------- MODULE StreamTrace -----------------------------
(* Validates recorded stream runs against the contract of Stream.tla.         *)
(* Decides C10 (intact streams and writers) and C11 (damaged streams).        *)
EXTENDS TraceBase, Stream
VARIABLES l, bad
C(cond, p, clause) == If(cond, p, clause)

WriterClauses(e) ==
       C(e.err = "", "C10", "the stream writer failed")
  \cup C(e.err # "" \/ e.ref # "invalid", "C10", "the written stream is not a valid ciphertext")
  \cup C(e.err # "" \/ e.ref # "differs", "C10", "the written stream holds other data than was written")
  \cup C(e.err # "" \/ e.one = "same", "C10", "the written stream does not decrypt with the one-shot call")
  \cup C(e.err # "" \/ e.complete, "C10", "flush left part of the stream unwritten")

Is(e) == e.intact /\ e.len = Total(e.n) /\ e.wrong = 0
\* reads[i].d: bytes delivered before read i
Chained(rs) == \A i \in DOMAIN rs : rs[i].d = (IF i = 1 THEN 0 ELSE rs[i-1].d + rs[i-1].got)
IntactClauses(e) ==
  LET rs == e.reads
      Ends(x) == x.kind = "end" /\ x.want # 0
  IN     C(e.opened /\ rs # <<>>, "C10", "a stream could not be opened")
    \cup C(\A i \in DOMAIN rs : rs[i].kind # "error", "C10", "an intact stream raised an error")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "data" => rs[i].at = rs[i].d, "C10", "bytes were lost, repeated or reordered")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "data" => (rs[i].want < 0 \/ rs[i].got <= rs[i].want), "C10", "a read returned more than requested")
    \cup C(\A i \in DOMAIN rs : Ends(rs[i]) => rs[i].d = e.n, "C10", "end of data was reported early")
    \cup C(\A i \in DOMAIN rs : rs[i].kind # "error" => MayRead(e.n, TRUE, rs[i].d, rs[i].want, rs[i].kind, rs[i].got, rs[i].eof), "C10",
           "a read result outside the contract")
    \cup C(rs = <<>> \/ (\E i \in DOMAIN rs : rs[i].kind = "error") \/ Ends(rs[Len(rs)]), "C10", "end of data was never reported")
    \cup C(Chained(rs), "C10", "inconsistent record")
DamagedClauses(e) ==
  LET rs == e.reads
      Err == {i \in DOMAIN rs : rs[i].kind = "error"}
  IN     C(\A i \in DOMAIN rs : ~(rs[i].kind = "end" /\ rs[i].want # 0), "C11", "a damaged stream ended cleanly")
    \cup C(~e.opened \/ Err # {} \/ \E i \in DOMAIN rs : rs[i].kind = "end" /\ rs[i].want # 0, "C11", "a damaged stream never ended in an error")
    \cup C(\A i \in Err : rs[i].kz, "C11", "a damaged stream raised a foreign error")
    \cup C(\A i \in DOMAIN rs : (\E j \in Err : j < i) => rs[i].kind = "error", "C11", "a read after the error gave a result")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "data" => rs[i].at = rs[i].d, "C11", "delivered bytes are not what the received blocks decrypt to")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "data" => rs[i].d + rs[i].got <= Greater(e.len - HD - BS - HL - BS, 0), "C11",
           "the last block was delivered before the signature was verified")
    \cup C(\A i \in DOMAIN rs : rs[i].kind = "data" => (rs[i].want < 0 \/ rs[i].got <= rs[i].want), "C11", "a read returned more than requested")
    \cup C(Chained(rs), "C11", "inconsistent record")
Fails(e) ==
  CASE e.ev = "writer" -> WriterClauses(e)
    [] e.ev = "stream" -> IF Is(e) THEN IntactClauses(e) ELSE DamagedClauses(e)
    [] OTHER -> {}
Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(Trace[l]))
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
