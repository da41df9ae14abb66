----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications: the recorded events of the real  *)
(* code, the directory projection, and clause bookkeeping.                   *)
EXTENDS KeySet, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

If(cond, prop, clause) == IF cond THEN {} ELSE {<<prop, clause>>}

(* ---- projection of a logged directory to the model's state space ---- *)
VerOf(j, n) == CHOOSE r \in Range(j.vers) : r.n = n
Numbers(j) == {r.n : r \in Range(j.vers)}
DirBy(j, idfield) ==
  [meta |-> j.meta, name |-> j.name, purpose |-> j.purpose, type |-> j.type, enc |-> j.enc,
   vers |-> [n \in Numbers(j) |->
              LET r == VerOf(j, n)
              IN  [st |-> r.st, exp |-> r.exp, key |-> r[idfield], size |-> r.size, seal |-> r.seal]]]
DirOf(j) == DirBy(j, "key")      \* keys identified by their material
KidDirOf(j) == DirBy(j, "kid")   \* keys identified by their identifier

\* append the failing clauses of the current property to the report
Report(bad, l, fails) ==
  LET f == {x \in fails : x[1] = Prop}
  IN  IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, (CHOOSE x \in f : TRUE)[2]>>)
Verdict(l, bad, known) ==
  l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad, known |-> known])>>)
=============================================================================
