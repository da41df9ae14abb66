----------------------------- MODULE RolesTrace -----------------------------
(* Compares every construction of the real code with Roles.  Decides C07.    *)
EXTENDS Roles, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {} ELSE {clause}
Fail(e) ==
  LET c == e.c
      ok == e.res = "ok"
  IN  IF Consistent(c.type, c.purpose) \/ ~WellFormed(c)
      THEN     If(Accept(c) => ok, "a role that the purpose includes was refused")
          \cup If(ok => Accept(c), "a role was accepted that must be refused")
          \cup If(ok \/ e.kz, "refused with a foreign error")
          \cup If((ok /\ Accept(c)) => Range(e.able) = Able(c), "the object can do other things than its role and purpose allow")
      \* purpose and type contradict each other: whatever happens stays within the purpose
      ELSE     If(ok => Accept(c), "a role was accepted that must be refused")
          \cup If((~ok /\ ~Accept(c)) => e.kz, "refused with a foreign error")
          \cup If(ok => Range(e.able) \subseteq Rights(c.purpose), "the object can do more than its purpose allows")
Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ LET f == UNION {Fail(Trace[l].list[i]) : i \in DOMAIN Trace[l].list}
     IN  bad' = IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, CHOOSE x \in f : TRUE>>)
  /\ l' = l + 1
  /\ l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad'])>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
