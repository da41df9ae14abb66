----------------------------- MODULE SealTrace ------------------------------
(* Validates recorded histories of encrypted key sets.  Decides C08.         *)
EXTENDS TraceBase, Seal
VARIABLES l, st, bad
\* st: d, the set; a, the crypter; h, the loaded crypter snapshot; b, a foreign crypter
SealedDirOf(j) == DirBy([j EXCEPT !.vers = [i \in DOMAIN j.vers |-> [j.vers[i] EXCEPT !.seal = j.vers[i].sealkid]]], "key")
With(s, w) == CASE w = "none" -> NoSet [] w = "b" -> s.b [] w = "a" -> s.a [] OTHER -> s.h
C(cond, clause) == If(cond, "C08", clause)

CmdClauses(s, e) ==
  LET c == With(s, e.with)
      o == SealedDirOf(e.dir)
      ok == e.res = "ok"
      n == MaxVersion(s.d) + 1
      newkey == IF n \in Versions(o) THEN o.vers[n].key ELSE "none"
      legal == CLegal(s.d, e.c, c, newkey)
      exp == IF legal /\ ok THEN CAfter(s.d, e.c, c, newkey) ELSE s.d
      common == Versions(o) \cap Versions(exp)
  IN     C(legal => ok, "a legal command with the right crypter failed")
    \cup C(ok => legal, "a command without the right crypter succeeded")
    \cup C(ok \/ e.kz, "a command was refused with a foreign error")
    \cup C(o.enc = exp.enc, "the encrypted mark")
    \cup C(Versions(o) = Versions(exp), "a version was lost or invented")
    \cup C(\A v \in common : o.vers[v].key = exp.vers[v].key, "a stored key changed or cannot be decrypted")
    \cup C(\A v \in common : exp.enc => o.vers[v].seal = exp.vers[v].seal,
           "a key is not encrypted under the primary key of the crypter")
    \cup C(\A v \in common : o.vers[v].st = exp.vers[v].st, "status")
    \cup C((c.meta /\ (s.d.enc \/ Versions(s.d) = {})) => ~e.leak, "a file contained a key in the clear")

Same(o, d) == /\ Versions(o) = Versions(d)
              /\ \A v \in Versions(d) : o.vers[v].key = d.vers[v].key /\ o.vers[v].st = d.vers[v].st
ProbeClauses(s, p) ==
  LET c == With(s, p.with)
      ok == p.res = "ok"
  IN     C(ReadableC(s.d, c) => ok, "an encrypted set cannot be read with the right crypter")
    \cup C(ok => ReadableC(s.d, c), "a set was read without the right crypter")
    \cup C(ok \/ p.kz, "an unreadable set raised a foreign error")
    \cup C((ok /\ ReadableC(s.d, c)) => Same(DirOf(p.obj), s.d), "the keys read are not the keys stored")
    \cup C(ok => p.works, "a key set read through its crypter does not work")
DamageClauses(p) == C(p.res # "ok", "a set with a damaged key file was loaded") \cup C(p.res = "ok" \/ p.kz, "a damaged key file raised a foreign error")

Fails(s, e) ==
  CASE e.ev = "cmd" -> CmdClauses(s, e)
    [] e.ev = "probe" -> UNION {ProbeClauses(s, e.list[i]) : i \in DOMAIN e.list}
    [] e.ev = "damage" -> UNION {DamageClauses(e.list[i]) : i \in DOMAIN e.list}
    [] OTHER -> {}
Advance(s, e) ==
  CASE e.ev = "reset" -> [d |-> SealedDirOf(e.dir), a |-> KidDirOf(e.adir), h |-> KidDirOf(e.adir), b |-> KidDirOf(e.bdir)]
    [] e.ev = "a" -> [s EXCEPT !.a = KidDirOf(e.adir)]
    [] e.ev = "loadc" -> [s EXCEPT !.h = s.a]
    [] e.ev = "cmd" -> [s EXCEPT !.d = SealedDirOf(e.dir)]
    [] OTHER -> s
Init == l = 1 /\ bad = <<>> /\ st = [d |-> NoSet, a |-> NoSet, h |-> NoSet, b |-> NoSet]
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(st, Trace[l]))
  /\ st' = Advance(st, Trace[l])
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
