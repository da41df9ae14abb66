---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded session histories.  Decides C13.                        *)
EXTENDS TraceBase, Session
VARIABLES l, st, bad
C(cond, clause) == If(cond, "C13", clause)
Start == [w |-> NewKeys, sig |-> [p \in Parties |-> NewKeys], sess |-> <<>>, msgs |-> <<>>, decs |-> <<>>]
NoSess == [kind |-> "", wv |-> 0, by |-> "", sk |-> 0]

MsgOf(s, e) ==
  CASE e.ev = "send" -> LET x == s.sess[e.i]
                        IN [kind |-> x.kind, body |-> e.i, sigby |-> IF x.kind = "plain" THEN <<"", 0>> ELSE <<x.by, x.sk>>,
                            nonceof |-> IF x.kind = "plain" THEN 0 ELSE e.i, data |-> e.data]
    [] OTHER -> LET m == s.msgs[e.i]
                IN CASE e.k = "resign" -> [m EXCEPT !.kind = "signed", !.sigby = <<"M", s.sig["M"].prim>>, !.nonceof = e.j]
                     [] e.k = "resignS" -> [m EXCEPT !.kind = "signed", !.sigby = <<"S", s.sig["S"].prim>>, !.nonceof = e.j]
                     [] e.k = "nonce" -> [m EXCEPT !.kind = "signed", !.sigby = <<"S", s.sig["S"].prim>>, !.nonceof = 0]
                     [] e.k = "strip" -> [m EXCEPT !.kind = "plain", !.sigby = <<"", 0>>, !.nonceof = 0]
                     [] OTHER -> [m EXCEPT !.kind = "signed", !.sigby = <<"", 0>>, !.nonceof = 0]
DecOf(s, e) ==
  IF e.res = "ok" THEN [kind |-> e.k, sess |-> e.i, keys |-> IF e.k = "plain" THEN {} ELSE Trusted(s.sig, e.p)]
  ELSE [kind |-> "none", sess |-> 0, keys |-> {}]

OpenClauses(s, e) == C(e.res = "ok", "a session could not be opened")
SendClauses(s, e) == C(e.res = "ok", "a message could not be encrypted")
BuildClauses(s, e) ==
  LET may == MayBuild(s.w, s.sess[e.i], e.k)
  IN     C(may => e.res = "ok", "a decrypter could not be built from the material of the session")
    \cup C(may \/ e.res # "ok", "a decrypter was built from foreign material")
    \cup C(e.res = "ok" \/ e.kz, "refused material raised a foreign error")
DecryptClauses(s, e) ==
  LET d == s.decs[e.i]  m == s.msgs[e.j]
      acc == Accept(d, m)
  IN IF d.kind = "none" THEN {}
     ELSE     C(acc => e.val = m.data, "a message of the session was not decrypted to its data")
         \cup C(acc \/ e.val = "refused", "a message was accepted that the signer did not send in this session")
         \cup C(e.val # "refused" \/ e.res = "ok" \/ e.kz, "a refused message raised a foreign error")
Fails(s, e) ==
  CASE e.ev = "open" -> OpenClauses(s, e)
    [] e.ev = "send" -> SendClauses(s, e)
    [] e.ev = "build" -> BuildClauses(s, e)
    [] e.ev = "decrypt" -> DecryptClauses(s, e)
    [] e.ev = "tamper" -> C(e.res # "ok" /\ e.kz, "damaged session material was accepted or raised a foreign error")
    [] OTHER -> {}
Advance(s, e) ==
  CASE e.ev = "reset" -> Start
    [] e.ev = "rotw" -> [s EXCEPT !.w = Rotate(@)]
    [] e.ev = "revw" -> [s EXCEPT !.w = RevokeOld(@, e.v)]
    [] e.ev = "rots" -> [s EXCEPT !.sig[e.p] = Rotate(@)]
    [] e.ev = "revs" -> [s EXCEPT !.sig[e.p] = RevokeOld(@, e.v)]
    [] e.ev = "open" -> [s EXCEPT !.sess = Append(@, [kind |-> e.k, wv |-> s.w.prim, by |-> e.p, sk |-> s.sig[e.p].prim])]
    [] e.ev \in {"send", "forge"} -> [s EXCEPT !.msgs = Append(@, MsgOf(s, e))]
    [] e.ev = "build" -> [s EXCEPT !.decs = Append(@, DecOf(s, e))]
    [] OTHER -> s
Init == l = 1 /\ bad = <<>> /\ st = Start
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(st, Trace[l]))
  /\ st' = Advance(st, Trace[l])
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
