----------------------------- MODULE CrashTrace -----------------------------
(* Validates directories seen between the file-system calls of real commands *)
(* (and after failing calls, and by concurrent loads).  Decides C15.         *)
EXTENDS TraceBase, Crash
VARIABLES l, st, bad
C(cond, clause) == If(cond, "C15", clause)
PubDirOf(j) == DirBy(j, "pub")

Whole(j) == (~j.meta /\ j.okmeta) \/
            /\ j.okmeta
            /\ Len(j.vers) = Cardinality(Numbers(j))
            /\ \A r \in Range(j.vers) : r.form = "ok" /\ r.shape /\ r.bits = r.size

\* o is the key set after command c on b (its new key, if any, is a new one)
NewV(b) == MaxVersion(b) + 1
IsAfter(b, c, o) ==
  LET k == IF NewV(b) \in Versions(o) THEN o.vers[NewV(b)].key ELSE "none"
  IN  o = After(b, c, k) /\ (c.op = "addkey" => k \notin Keys(b))
Expect(b, c, o) == o = b \/ IsAfter(b, c, o)

\* the directory that the command changes, and the one it must leave alone
IsPub(c) == c.op = "pubkey"
IsBefore2(s, c, j, q) == DirOf(j) = s.d /\ PubDirOf(q) = s.p
IsAfter2(s, c, j, q) ==
  IF IsPub(c) THEN DirOf(j) = s.d /\ PubDirOf(q) = ExportOf(s.dp)
              ELSE IsAfter(s.d, c, DirOf(j)) /\ PubDirOf(q) = s.p
Sound(s, c, j, q, when) ==
       C(Whole(j) /\ Whole(q), "the key set is incomplete " \o when)
  \cup C((Whole(j) /\ Whole(q)) => (IsBefore2(s, c, j, q) \/ IsAfter2(s, c, j, q)),
         "the key set is neither the one before nor the one after the command " \o when)

\* loaded objects know nothing of the encryption of the files
Bare(d) == [d EXCEPT !.enc = FALSE, !.vers = [v \in Versions(d) |-> [d.vers[v] EXCEPT !.seal = ""]]]
LoadOk(s, e, exp) == e.res = "ok" => Whole(e.load) /\ Bare(exp) = Bare(IF IsPub(e.c) THEN PubDirOf(e.load) ELSE DirOf(e.load))

EndClauses(s, e) ==
       Sound(s, e.c, e.dir, e.dst, "when a command has failed or ended")
  \cup C(e.res = "ok" => IsAfter2(s, e.c, e.dir, e.dst), "a command reported success without its complete effect")
  \cup C((e.res = "ok" /\ e.c.op = "revoke") => ~e.left, "revoke reported success, but the key file is still there")
  \cup C(e.err # "HANG", "a command hangs after a failed write")
  \cup C(e.what = "run" => e.res = "ok", "a command that is possible failed")

CrashClauses(s, e) ==
  LET j == IF IsPub(e.c) THEN e.dst ELSE e.dir
      o == IF IsPub(e.c) THEN PubDirOf(e.dst) ELSE DirOf(e.dir)
  IN     Sound(s, e.c, e.dir, e.dst, "after a crash")
    \cup C(j.meta = (e.res = "ok"), "the key set cannot be loaded after a crash")
    \cup C(LoadOk(s, e, o), "another key set is loaded after a crash")

RecoverClauses(e) ==
  LET b == DirOf(e.dir0)
      o == DirOf(e.dir)
      legal == Legal(b, e.c)
  IN     C((e.res = "ok") = legal, IF legal THEN "a command fails after a crash" ELSE "an illegal command succeeds after a crash")
    \cup C(Whole(e.dir), "the key set is incomplete after a crash and another command")
    \cup C(Whole(e.dir) => (IF legal /\ e.res = "ok" THEN IsAfter(b, e.c, o) ELSE o = b), "a command after a crash has the wrong effect")

RaceClauses(s, e) ==
  LET o == IF IsPub(e.c) THEN PubDirOf(e.load) ELSE DirOf(e.load)
      bef == IF IsPub(e.c) THEN s.p ELSE s.d
      aft == IF IsPub(e.c) THEN PubDirOf(e.dst) ELSE DirOf(e.dir)
  IN     C(e.cres = "ok", "a command fails while the key set is loaded")
    \cup C(e.res = "ok" => Whole(e.load), "a concurrent load got an incomplete key")
    \cup C((e.res = "ok" /\ Whole(e.load)) => Bare(o) \in {Bare(bef), Bare(aft)},
           "a concurrent load got a key set that never existed")
    \cup C(e.res = "err" => (e.kz /\ (~bef.meta \/ e.c.op = "revoke")), "a concurrent load fails")
    \cup Sound(s, e.c, e.dir, e.dst, "after a command with a concurrent load")

Fails(s, e) ==
  CASE e.ev = "reset" -> {}
    [] e.ev = "end" -> EndClauses(s, e)
    [] e.ev = "crash" -> CrashClauses(s, e)
    [] e.ev = "recover" -> RecoverClauses(e)
    [] e.ev = "race" -> RaceClauses(s, e)
Init == l = 1 /\ bad = <<>> /\ st = [d |-> NoSet, dp |-> NoSet, p |-> NoSet]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ bad' = Report(bad, l, Fails(st, e))
     /\ st' = IF e.ev = "reset" THEN [d |-> DirOf(e.dir), dp |-> PubDirOf(e.dir), p |-> PubDirOf(e.dst)] ELSE st
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
