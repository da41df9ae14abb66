----------------------------- MODULE ShareTrace -----------------------------
(* Validation of operations that were under way at the same time on shared   *)
(* objects of the real code.  Decides C22.                                   *)
EXTENDS Base, Json, IOUtils
VARIABLES l, sets, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {} ELSE {clause}

Making == {"enc", "senc", "sign", "att", "unv", "sess"}
Opening == {"dec", "old", "sdec", "sdecold", "attver", "attold", "sessdec"}
Refusing == {"decbad", "sdecbad", "decunk", "verbad", "attbad", "unvbad"}
\* the result of an operation alone, from the state of its key set
AsAlone(o, S) ==
  CASE o.op \in Making -> o.res = "ok" /\ o.kid = (IF o.op = "sess" THEN o.skid ELSE S.primary) /\ o.got = o.data
    [] o.op \in Opening -> o.res = "ok" /\ o.got = o.data
    [] o.op \in {"ver", "verold", "unvver", "unvold"} -> o.res = "ok" /\ o.got = "TRUE"
    [] o.op \in {"decbad", "sdecbad", "decunk"} -> o.res = "err" /\ o.kz
    [] o.op \in {"verbad", "unvbad"} -> (o.res = "ok" /\ o.got = "FALSE") \/ (o.res = "err" /\ o.kz)
    [] o.op = "attbad" -> (o.res = "ok" /\ o.got = "NONE") \/ (o.res = "err" /\ o.kz)
    [] o.op = "read" -> o.res = "ok" /\ o.got = S.state
    [] OTHER -> FALSE

RunClauses(e) ==
  LET alone == {i \in DOMAIN e.ops : ~AsAlone(e.ops[i], sets[e.ops[i].set])}
  IN  If(alone = {}, "an operation has another result than alone: "
                     \o (IF alone = {} THEN "" ELSE e.ops[MinOf(alone)].op) \o " (" \o e.kind \o ")")
      \cup If(\A i, j \in DOMAIN e.ops : (i # j /\ e.ops[i].iv # "") => e.ops[i].iv # e.ops[j].iv, "two outputs share their random part")
      \cup If(\A i \in DOMAIN e.after : e.after[i].state = sets[e.after[i].set].state, "use changed a key set object")
      \cup If(\A i \in DOMAIN e.after : e.after[i].files = sets[e.after[i].set].files, "use changed the files of a key set")
      \cup If(~e.stuck, "operations did not end")

Init == l = 1 /\ bad = <<>> /\ sets = EmptyFun
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         f == IF e.ev = "run" THEN RunClauses(e) ELSE {}
     IN  /\ sets' = IF e.ev = "set" THEN (e.id :> [primary |-> e.primary, state |-> e.state, files |-> e.files]) @@ sets ELSE sets
         /\ bad' = IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, CHOOSE x \in f : TRUE>>)
  /\ l' = l + 1
  /\ l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad', known |-> <<>>])>>)
TSpec == Init /\ [][Next]_<<l, sets, bad>>
=============================================================================
