---------------------------- MODULE KeyUseTrace ----------------------------
(* Validation of recorded use histories (load / produce / open interleaved   *)
(* with rotation) against KeyUse.  Decides C03 and C04.                      *)
EXTENDS TraceBase, KeyUse

VARIABLES l, st, bad
\* st.h: handle -> snapshot (keys identified by key identifier); st.outs: id -> output

PropOf(op) == IF op \in EncOps THEN "C03" ELSE "C04"

UseClauses(s, e) ==
  LET d == s.h[e.h]
      x == Produce(d)
      p == PropOf(e.op)
      ok == e.res = "ok"
  IN  IF x.res = "err"
      THEN If(~ok, p, "an operation without a primary key succeeded")
           \cup If(ok \/ e.err = x.err, p, "no primary key, but another error than NoPrimaryKeyError")
      ELSE If(ok, p, "the operation failed although there is a primary key")
           \cup If(ok => e.by = x.val, p, "the output was not made with the primary key")
           \cup If((ok /\ e.op # "unv") => e.hdr = x.val, p, "the output does not name the primary key")
           \cup If(ok => e.ref = e.data, p, "the output does not hold the data, judged independently")

OpenClause(s, o) ==
  LET out == s.outs[o.id]
      x == Open(s.h[o.h], out)
      p == PropOf(out.op)
  IN  If(o.res = x.res, p, IF x.res = "ok" THEN "an output whose key is in the set is not accepted"
                                           ELSE "an output whose key was revoked is accepted")
      \cup If((o.res = "ok" /\ x.res = "ok") => o.val = x.val, p, "opening gave the wrong result")
      \cup If((o.res = "err" /\ x.res = "err") => o.err = x.err, p, "wrong error for a revoked key")

Fails(s, e) ==
  CASE e.ev = "load" -> If(e.res = "ok", "C03", "a legal key set cannot be loaded")
                        \cup If(e.res = "ok", "C04", "a legal key set cannot be loaded")
    [] e.ev = "use"  -> UseClauses(s, e)
    [] e.ev = "open" -> UNION {OpenClause(s, e.list[i]) : i \in DOMAIN e.list}
    [] OTHER -> {}

Advance(s, e) ==
  CASE e.ev = "reset" -> [h |-> EmptyFun, outs |-> EmptyFun]
    [] e.ev = "load" -> [s EXCEPT !.h = (e.h :> KidDirOf(e.dir)) @@ s.h]
    [] e.ev = "use" /\ e.res = "ok" ->
         [s EXCEPT !.outs = (e.id :> [op |-> e.op, key |-> e.by, data |-> e.data, nonce |-> e.nonce]) @@ s.outs]
    [] OTHER -> s

Init == l = 1 /\ st = [h |-> EmptyFun, outs |-> EmptyFun] /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(st, Trace[l]))
  /\ st' = Advance(st, Trace[l])
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
