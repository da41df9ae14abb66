------------------------------ MODULE KeySetMC ------------------------------
(* Bounded exhaustive model of the lifecycle; also the generator of the      *)
(* transitions and histories that are replayed on the real code.             *)
EXTENDS KeySet, Json

CONSTANTS MaxVers,      \* versions per set
          MaxKeys,      \* keys ever generated
          Vias          \* crypters, e.g. {"", "A"}

VARIABLES d,        \* the key set directory
          used,     \* number of keys generated so far
          last      \* last command and its outcome (hidden by MCView)

vars == <<d, used, last>>

Cmds ==
       {[op |-> "create", purpose |-> p, asym |-> "", name |-> "n", via |-> "",
         v |-> 0, status |-> "", size |-> 0] : p \in {"DECRYPT_AND_ENCRYPT", "VERIFY"}}
  \cup {[op |-> "addkey", status |-> s, size |-> z, via |-> a, v |-> 0,
         purpose |-> "", asym |-> "", name |-> ""] :
            s \in Statuses, z \in {0, 256, 100}, a \in Vias}
  \cup {[op |-> o, v |-> n, via |-> a, status |-> "", size |-> 0,
         purpose |-> "", asym |-> "", name |-> ""] :
            o \in {"promote", "demote", "revoke"}, n \in 0..(MaxVers + 1), a \in Vias}

Init == d = NoSet /\ used = 0 /\ last = [c |-> [op |-> "init"], ok |-> TRUE]

Do(c) ==
  IF Legal(d, c)
  THEN /\ d' = After(d, c, used + 1)
       /\ used' = IF c.op = "addkey" THEN used + 1 ELSE used
       /\ last' = [c |-> c, ok |-> TRUE]
  ELSE /\ d' = d /\ used' = used
       /\ last' = [c |-> c, ok |-> FALSE]

Next == \E c \in Cmds : Do(c)
Spec == Init /\ [][Next]_vars

Bound == MaxVersion(d) <= MaxVers /\ used <= MaxKeys

(* ------------------------------ properties ------------------------------- *)
Inv == WellFormed(d)

\* C01: failing commands change nothing; revocation only from INACTIVE; one step at a time
FailedIsNoop == [][~last'.ok => d' = d]_vars
RevokeOnlyInactive == [][\A v \in Versions(d) : v \notin Versions(d') => d.vers[v].st = "INACTIVE"]_vars
OneStep == [][\A v \in Versions(d) \cap Versions(d') :
                <<d.vers[v].st, d'.vers[v].st>> \notin
                  {<<"PRIMARY", "INACTIVE">>, <<"INACTIVE", "PRIMARY">>}]_vars
CreateOnce == [][d.meta => d'.meta /\ d'.name = d.name /\ d'.purpose = d.purpose
                             /\ d'.type = d.type]_vars
\* C02: key material is stable, numbers grow, new keys are new
KeyStable == [][\A v \in Versions(d) \cap Versions(d') :
                   d'.vers[v].key = d.vers[v].key /\ d'.vers[v].size = d.vers[v].size]_vars
NewIsMax == [][\A v \in Versions(d') \ Versions(d) :
                   v = MaxVersion(d) + 1 /\ d'.vers[v].key \notin Keys(d)]_vars
LoseOnlyRevoked == [][Cardinality(Versions(d) \ Versions(d')) <= 1]_vars
\* C08: a set never mixes sealed and clear keys
SealedStaysSealed == [][(d.enc /\ Versions(d) # {}) => d'.enc]_vars

MCView == <<d, used>>

(* ----------------- generators for the conformance replay ----------------- *)
\* every (state, command) pair once, on the state graph modulo key identities
View == [v \in Versions(d) |-> <<d.vers[v].st, d.vers[v].seal>>]
Abstract(x) == [meta |-> x.meta, enc |-> x.enc,
                vers |-> {[n |-> v, st |-> x.vers[v].st, seal |-> x.vers[v].seal] : v \in Versions(x)}]
EdgeView == <<d.meta, d.enc, View>>
PrintEdges == \A c \in Cmds : PrintT(<<"EDGE", ToJson([pre |-> Abstract(d), c |-> c])>>)
EdgeInv == PrintEdges
=============================================================================
