----------------------------- MODULE ExportTrace ----------------------------
(* Validates recorded exports of the real code.  Decides C09.                *)
EXTENDS TraceBase, Export
VARIABLES l, bad
C(cond, clause) == If(cond, "C09", clause)
PubDirOf(j) == DirBy(j, "pub")        \* keys identified by their public half
Kids(j) == [v \in Numbers(j) |-> VerOf(j, v).kid]

ExportClauses(e) ==
  LET src == PubDirOf(e.src)
      dst == PubDirOf(e.dst)
      may == Exportable(src) /\ e.readable /\ e.destok
      exp == ExportOf(src)
      ok == e.res = "ok"
      common == Versions(dst) \cap Versions(exp)
  IN     C(may => ok, "the export of a private key set failed")
    \cup C(ok => may, "a set that has no public half was exported")
    \cup C(ok \/ e.kz, "the export was refused with a foreign error")
    \cup C(e.src = e.srcafter, "the export changed the source key set")
    \cup (IF ok /\ may
          THEN     C(dst.meta /\ e.dst.okmeta, "the exported set has no metadata")
              \cup C(dst.type = exp.type /\ dst.purpose = exp.purpose, "type or purpose of the exported set")
              \cup C(dst.name = exp.name, "name of the exported set")
              \cup C(~dst.enc, "the exported set is marked encrypted")
              \cup C(Versions(dst) = Versions(exp) /\ Len(e.dst.vers) = Cardinality(Versions(exp)),
                     "the exported set has other versions than the private one")
              \cup C(\A v \in common : dst.vers[v].st = exp.vers[v].st, "status of an exported version")
              \cup C(\A v \in common : dst.vers[v].key = exp.vers[v].key, "an exported key is not the public half of its version")
              \cup C(\A v \in common : dst.vers[v].size = exp.vers[v].size, "size of an exported key")
              \cup C(\A v \in common : Kids(e.dst)[v] = Kids(e.src)[v], "key identifier of an exported version")
              \cup C(\A r \in Range(e.dst.vers) : r.form = "ok" => r.shape, "an exported key file has other fields than the public ones")
              \cup C(~e.leak, "the exported directory contains private material")
              \cup C(\A f \in Range(e.dst.extra) : f \in Range(e.stale), "the export wrote a file that belongs to no version")
          ELSE C(ok \/ e.dst = e.dstbefore, "a refused export wrote to the destination"))

\* uses of the exported set: x.want is what the private set gives for the same
UseClauses(u) == C(u.got = u.want, u.what)
Fails(e) ==
  CASE e.ev = "export" -> ExportClauses(e)
    [] e.ev = "uses" -> UNION {UseClauses(e.list[i]) : i \in DOMAIN e.list}
    [] OTHER -> {}
Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ bad' = Report(bad, l, Fails(Trace[l]))
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
