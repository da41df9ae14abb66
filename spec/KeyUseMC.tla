------------------------------ MODULE KeyUseMC ------------------------------
(* Bounded model: lifecycle commands interleaved with loading handles and    *)
(* producing outputs through any (possibly stale) handle.                    *)
EXTENDS KeyUse, Json
CONSTANTS MaxVers, MaxKeys, MaxOuts, Handles

VARIABLES d, used, hs, outs
vars == <<d, used, hs, outs>>

Plain == [purpose |-> "DECRYPT_AND_ENCRYPT", asym |-> "", name |-> "n", via |-> "",
          v |-> 0, status |-> "", size |-> 0]
Cmds == {[Plain EXCEPT !.status = s] @@ [op |-> "addkey"] : s \in Statuses}
  \cup {[Plain EXCEPT !.v = n] @@ [op |-> o] : o \in {"promote", "demote", "revoke"}, n \in 1..MaxVers}

Init == /\ d = After(NoSet, Plain @@ [op |-> "create"], 0)
        /\ used = 0
        /\ hs = [h \in Handles |-> NoSet]
        /\ outs = {}

Cmd(c) == /\ Legal(d, c)
          /\ d' = After(d, c, used + 1)
          /\ used' = IF c.op = "addkey" THEN used + 1 ELSE used
          /\ UNCHANGED <<hs, outs>>
Load(h) == hs' = [hs EXCEPT ![h] = d] /\ UNCHANGED <<d, used, outs>>
Use(h, op) ==
  /\ hs[h].meta
  /\ CanProduce(hs[h])
  /\ outs' = outs \cup {[op |-> op, key |-> ProducingKey(hs[h]), data |-> "x", nonce |-> ""]}
  /\ UNCHANGED <<d, used, hs>>

Next == (\E c \in Cmds : Cmd(c)) \/ (\E h \in Handles : Load(h) \/ \E op \in {"enc", "unv"} : Use(h, op))
Spec == Init /\ [][Next]_vars
Bound == MaxVersion(d) <= MaxVers /\ used <= MaxKeys /\ Cardinality(outs) <= MaxOuts

(* C03/C04 on the design *)
\* an output becomes unreadable only by the revocation of its (inactive) key ...
LostOnlyByRevoke == [][\A o \in outs :
      (Open(d, o).res = "ok" /\ Open(d, o).val # "FALSE") =>
         \/ Open(d', o) = Open(d, o)
         \/ \E v \in Versions(d) : d.vers[v].key = o.key /\ d.vers[v].st = "INACTIVE"
                                     /\ v \notin Versions(d')]_vars
\* ... never by any other command, and after it for good
GoneForGood == [][\A o \in outs : Open(d, o).res = "err" /\ o.key <= used => Open(d', o) = Open(d, o)]_vars
\* new outputs come from the primary of the snapshot that made them
FromPrimary == [][\A o \in outs' \ outs : \E h \in Handles :
                    HasPrimary(hs[h]) /\ o.key = hs[h].vers[PrimaryOf(hs[h])].key]_vars
\* a freshly loaded handle opens what it produces
SelfOpen == \A h \in Handles : (hs[h].meta /\ CanProduce(hs[h])) =>
              Open(hs[h], [op |-> "enc", key |-> ProducingKey(hs[h]), data |-> "x", nonce |-> ""]) = Ok("x")
=============================================================================
