---------------------------- MODULE BackendTrace ----------------------------
(* Validates management histories on storage backends, with and without      *)
(* failing backend calls.  Decides C21.                                      *)
EXTENDS KeySetTrace, Backend
B(cond, clause) == If(cond, "C21", clause)
\* every clause about the result of a command applies to any backend
CmdB(s, e) ==
  LET o == DirOf(e.dir)
      newv == MaxVersion(s.d) + 1
      newkey == IF newv \in Versions(o) THEN o.vers[newv].key ELSE "none"
      served == ChosenOf(e.cls) # ""
  IN  IF ~served
      THEN B(e.res = "err" /\ (e.kz \/ FailsAt(e.cls) # {}), "a location that nobody serves was accepted or gave a foreign error")
            \cup B(e.otherok /\ o = s.d, "a command that could not open its location changed something")
      ELSE  (IF e.hit
             THEN     B(e.res = "err", "a failing backend call was not reported")
                 \cup B(o = s.d \/ (Legal(s.d, e.c) /\ o = After(s.d, e.c, newkey)),
                        "after a failing backend call the stored set is neither the old nor the new one")
             ELSE {<<"C21", x[2]>> : x \in CmdClauses(s, e)})
       \cup B(UsedWhileOpen(e.calls), "a reader or writer was used before it was opened or after it was closed")
       \cup B(AllClosed(e.calls), "a reader or writer was left open")
       \cup B(RightKind(e.calls), "a writer was read from")
       \cup B(ChosenOf(e.cls) = "file" => e.calls = <<>>, "a plug-in was used for a directory")
       \cup B((Legal(s.d, e.c) /\ ~e.hit /\ ChosenOf(e.cls) # "file") => Mutations(e.calls) # {}, "the backend was not used")
       \cup B(Legal(s.d, e.c) \/ Mutations(e.calls) = {}, "a refused command wrote to the backend")
       \cup B(e.otherok, "the command changed something outside its location")
BFails(s, e) ==
  CASE e.ev = "cmd" -> CmdB(s, e)
    [] e.ev = "uses" -> UNION {B(e.list[i].got = e.list[i].want, e.list[i].what) : i \in DOMAIN e.list}
    [] e.ev = "choice" -> B(e.who = ChosenOf(e.cls), "the location is served by another backend than the first that accepts it")
                     \cup B(e.res = "ok" \/ e.kz \/ FailsAt(e.cls) # {}, "no backend: foreign error")
    [] OTHER -> {}
BNext ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, BFails(st, Trace[l]))
  /\ st' = IF Trace[l].ev \in {"reset", "cmd"} THEN Advance(st, Trace[l]) ELSE st
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
BSpec == Init /\ [][BNext]_<<l, st, bad>>
=============================================================================
