------------------------------- MODULE Crash -------------------------------
(* Management commands as sequences of file-system steps (C15).              *)
(*                                                                           *)
(* A disk is a record                                                        *)
(*   meta    the parsed metadata file: a key set whose keys are "?"          *)
(*           (NoSet if there is no metadata file)                            *)
(*   files   function: version number -> [key, size, seal, whole]            *)
(* A key set is on the disk when every listed version has its whole file;    *)
(* files of versions that are not listed do not matter.                      *)
EXTENDS Export

Blank(d) == [d EXCEPT !.vers = [v \in Versions(d) |-> [d.vers[v] EXCEPT !.key = "?", !.seal = "?", !.size = 0]]]
FileOf(r) == [key |-> r.key, size |-> r.size, seal |-> r.seal, whole |-> TRUE]
DiskOf(d) == [meta |-> Blank(d), files |-> [v \in Versions(d) |-> FileOf(d.vers[v])]]
Broken == [NoSet EXCEPT !.name = "broken"]
View(k) ==
  IF \A v \in Versions(k.meta) : v \in DOMAIN k.files /\ k.files[v].whole
  THEN [k.meta EXCEPT !.vers = [v \in Versions(k.meta) |->
          [st |-> k.meta.vers[v].st, exp |-> k.meta.vers[v].exp, key |-> k.files[v].key,
           size |-> k.files[v].size, seal |-> k.files[v].seal]]]
  ELSE Broken

\* the steps of a command that leads to key set a: [what, v]
SortedVers(a) == CHOOSE s \in [1..Cardinality(Versions(a)) -> Versions(a)] :
                    \A i, j \in DOMAIN s : i < j => s[i] < s[j]
FileSteps(proto, v) ==
  IF proto = "inplace" THEN <<[what |-> "trunc", v |-> v], [what |-> "fill", v |-> v]>>
  ELSE <<[what |-> "tmp", v |-> v], [what |-> "rename", v |-> v]>>
MetaSteps(proto) == FileSteps(proto, 0)
RECURSIVE Flat(_, _, _)
Flat(proto, s, i) == IF i > Len(s) THEN <<>> ELSE FileSteps(proto, s[i]) \o Flat(proto, s, i + 1)
Steps(proto, d, c, a) ==
  LET keys == IF Versions(a) = {} THEN <<>> ELSE Flat(proto, SortedVers(a), 1)
      rm == IF c.op = "revoke" THEN <<[what |-> "rm", v |-> c.v]>> ELSE <<>>
  IN  CASE proto = "metafirst" -> MetaSteps(proto) \o keys \o rm
        [] proto = "rmfirst" -> rm \o keys \o MetaSteps(proto)
        [] OTHER -> keys \o MetaSteps(proto) \o rm

\* effect of one step on the disk
Put(k, v, r) == [k EXCEPT !.files = [w \in DOMAIN k.files \cup {v} |-> IF w = v THEN r ELSE k.files[w]]]
BadMeta == [NoSet EXCEPT !.meta = TRUE, !.name = "partial"]
Effect(k, s, a) ==
  CASE s.what = "tmp" -> k                      \* a file nobody refers to
    [] s.what \in {"rename", "fill"} /\ s.v = 0 -> [k EXCEPT !.meta = Blank(a)]
    [] s.what \in {"rename", "fill"} -> Put(k, s.v, FileOf(a.vers[s.v]))
    [] s.what = "trunc" /\ s.v = 0 -> [k EXCEPT !.meta = BadMeta]
    [] s.what = "trunc" -> Put(k, s.v, [FileOf(a.vers[s.v]) EXCEPT !.whole = FALSE])
    [] s.what = "rm" -> [k EXCEPT !.files = Restrict(k.files, DOMAIN k.files \ {s.v})]
=============================================================================
