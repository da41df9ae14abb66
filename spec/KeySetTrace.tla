---------------------------- MODULE KeySetTrace ----------------------------
(* Validation of recorded management histories of the real code against      *)
(* KeySet.  One event per command, with the projected key directory (or key  *)
(* set object) after it.  Decides C01, C02 and the storage part of C08.      *)
EXTENDS TraceBase

VARIABLES l,      \* next event
          st,     \* model state: d, the key set; seen, all keys ever observed; extra files
          bad     \* clauses found violated: <<event, clause, detail>>

StatusMap(d) == [v \in Versions(d) |-> d.vers[v].st]
Field(d, f) == [v \in Versions(d) |-> d.vers[v][f]]

(* ---- clauses that every observed directory has to satisfy by itself ---- *)
SelfClauses(j) ==
       If(j.okmeta, "C01", "metadata is unreadable")
  \cup If(Len(j.vers) = Cardinality(Numbers(j)), "C01", "a version number is listed twice")
  \cup If(Cardinality({r \in Range(j.vers) : r.st = "PRIMARY"}) <= 1, "C01", "two primary versions")
  \cup If(\A r \in Range(j.vers) : r.st \in Statuses, "C01", "unknown status")
  \cup If(\A r \in Range(j.vers) : r.form = "ok", "C02", "a listed version has no readable key")
  \cup If(\A r \in Range(j.vers) : r.form = "ok" => r.bits = r.size /\ r.shape,
          "C02", "key material does not match the declared size or format")
  \cup If(\A r, s \in Range(j.vers) : (r.kid = s.kid /\ r.form = "ok" /\ s.form = "ok") => r.n = s.n,
          "C02", "two versions share a key identifier")

CmdClauses(s, e) ==
  LET d == s.d
      c == e.c
      j == e.dir
      o == DirOf(j)
      legal == Legal(d, c)
      ok == e.res = "ok"
      newv == MaxVersion(d) + 1
      newkey == IF newv \in Versions(o) THEN o.vers[newv].key ELSE "none"
      exp == IF legal THEN After(d, c, newkey) ELSE d       \* what must be there
      base == IF legal /\ ok THEN exp ELSE d                \* reference for material
      common == Versions(o) \cap Versions(base)
  IN     If(ok = legal, "C01", IF legal THEN "a legal command failed" ELSE "an illegal command succeeded")
    \cup If((legal /\ c.op = "addkey") => ok, "C02", "no key was added by a legal addkey")
    \cup If(ok \/ e.kz, "C01", "the command failed with a foreign error")
    \cup If(o.meta = exp.meta, "C01", "existence of the key set")
    \cup If(Versions(o) = Versions(exp), "C01", "set of versions")
    \cup If(\A v \in Versions(o) \cap Versions(exp) : o.vers[v].st = exp.vers[v].st, "C01", "status")
    \cup If(legal \/ (o = d /\ Range(j.extra) = s.extra), "C01", "a refused command changed the key set")
    \cup If(Versions(o) = Versions(base), "C02", "a version was lost, invented or renumbered")
    \cup If(\A v \in common : o.vers[v].key = base.vers[v].key, "C02", "key material of a version changed")
    \cup If(\A v \in common : o.vers[v].exp = base.vers[v].exp, "C02", "exportable flag changed")
    \cup If(\A v \in common : o.vers[v].size = base.vers[v].size, "C02", "key size")
    \cup If((legal /\ ok /\ c.op = "addkey" /\ newv \in Versions(o)) =>
               newkey \notin (IF e.pool THEN Keys(d) ELSE s.seen),
            "C02", "the new key is not new")
    \cup If(base.meta => o.name = base.name /\ o.purpose = base.purpose /\ o.type = base.type,
            "C02", "name, purpose or type changed")
    \cup If(Range(j.extra) \subseteq s.extra, "C02", "a stray or revoked key file remains")
    \cup If(o.enc = base.enc, "C08", "encrypted flag")
    \cup If(\A v \in common : o.vers[v].seal = base.vers[v].seal, "C08", "a key is stored under the wrong protection")
    \cup SelfClauses(j)

Fails(s, e) ==
  IF e.ev = "reset" THEN {}
  ELSE IF e.ev = "cmd" THEN CmdClauses(s, e)
  ELSE {<<Prop, "unknown event">>}

\* the model continues from what was observed, so one deviation is reported once
Advance(s, e) ==
  LET o == DirOf(e.dir)
  IN  [d |-> o, extra |-> Range(e.dir.extra),
       seen |-> IF e.ev = "reset" THEN Keys(o) ELSE s.seen \cup Keys(o)]

Init == l = 1 /\ st = [d |-> NoSet, extra |-> {}, seen |-> {}] /\ bad = <<>>

Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(st, Trace[l]))
  /\ st' = Advance(st, Trace[l])
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)

Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
