------------------------------- MODULE KeySet -------------------------------
(* The stored key set and the key management commands.                       *)
(*                                                                           *)
(* A key set directory is a record                                           *)
(*   meta     is there a metadata file?                                      *)
(*   name, purpose, type, enc                                                *)
(*   vers     function: version number -> [st, exp, key, size, seal]         *)
(* where key is an abstract identity of the key material and seal says under *)
(* which crypter the key file is encrypted ("" = stored in the clear).       *)
(*                                                                           *)
(* Every command is a pair of operators: whether it is Legal in a state, and *)
(* the state it leads to.  A command that is not legal must fail and change  *)
(* nothing.  The bounded model (KeySetMC) and the trace specifications use   *)
(* the same operators.                                                       *)
EXTENDS Base

Statuses == {"PRIMARY", "ACTIVE", "INACTIVE"}

NoSet == [meta |-> FALSE, name |-> "", purpose |-> "", type |-> "",
          enc |-> FALSE, vers |-> EmptyFun]

KeyTypes == {"AES", "HMAC_SHA1", "DSA_PRIV", "DSA_PUB", "RSA_PRIV", "RSA_PUB"}
Sizes(t) == CASE t = "AES" -> {128, 192, 256}
              [] t = "HMAC_SHA1" -> {256}
              [] t \in {"DSA_PRIV", "DSA_PUB"} -> {1024}
              [] t \in {"RSA_PRIV", "RSA_PUB"} -> {512, 768, 1024, 2048, 4096}
              [] OTHER -> {}
DefaultSize(t) == CASE t = "AES" -> 128
                    [] t = "HMAC_SHA1" -> 256
                    [] t \in {"DSA_PRIV", "DSA_PUB"} -> 1024
                    [] t \in {"RSA_PRIV", "RSA_PUB"} -> 2048
                    [] OTHER -> 0
Generable(t) == t \in {"AES", "HMAC_SHA1", "DSA_PRIV", "RSA_PRIV"}

Versions(d) == DOMAIN d.vers
Primaries(d) == {v \in Versions(d) : d.vers[v].st = "PRIMARY"}
HasPrimary(d) == Primaries(d) # {}
PrimaryOf(d) == CHOOSE v \in Primaries(d) : TRUE
Keys(d) == {d.vers[v].key : v \in Versions(d)}
MaxVersion(d) == IF Versions(d) = {} THEN 0 ELSE MaxOf(Versions(d))

(* ------------------------------ reading ---------------------------------- *)
(* via = "" : read without a crypter;  via = c : read through crypter c.     *)
Readable(d, via) ==
  /\ d.meta
  /\ d.enc => via # ""
  /\ \A v \in Versions(d) : d.vers[v].seal = via
  /\ Cardinality(Primaries(d)) <= 1

(* ----------------------------- the commands ------------------------------ *)
(* A command is a record with field op and the fields the operation needs.   *)
TypeFor(purpose, asym) ==
  CASE purpose = "SIGN_AND_VERIFY" /\ asym = "" -> "HMAC_SHA1"
    [] purpose = "SIGN_AND_VERIFY" /\ asym = "rsa" -> "RSA_PRIV"
    [] purpose = "SIGN_AND_VERIFY" -> "DSA_PRIV"
    [] purpose = "DECRYPT_AND_ENCRYPT" /\ asym = "" -> "AES"
    [] purpose = "DECRYPT_AND_ENCRYPT" -> "RSA_PRIV"
    [] OTHER -> ""

Downgrade(vers) == [v \in DOMAIN vers |->
                      IF vers[v].st = "PRIMARY" THEN [vers[v] EXCEPT !.st = "ACTIVE"]
                                                ELSE vers[v]]
Reseal(d, via) == [d EXCEPT !.enc = (via # ""),
                            !.vers = [v \in Versions(d) |-> [d.vers[v] EXCEPT !.seal = via]]]

EffSize(d, size) == IF size = 0 THEN DefaultSize(d.type) ELSE size

Legal(d, c) ==
  CASE c.op = "create"  -> ~d.meta /\ TypeFor(c.purpose, c.asym) # ""
    [] c.op = "addkey"  -> /\ Readable(d, c.via)
                           /\ c.status \in Statuses
                           /\ Generable(d.type)
                           /\ EffSize(d, c.size) \in Sizes(d.type)
    [] c.op = "promote" -> /\ Readable(d, c.via)
                           /\ c.v \in Versions(d)
                           /\ d.vers[c.v].st # "PRIMARY"
    [] c.op = "demote"  -> /\ Readable(d, c.via)
                           /\ c.v \in Versions(d)
                           /\ d.vers[c.v].st # "INACTIVE"
    [] c.op = "revoke"  -> /\ Readable(d, c.via)
                           /\ c.v \in Versions(d)
                           /\ d.vers[c.v].st = "INACTIVE"
    \* storing and loading a key set object
    [] c.op = "write"   -> TRUE
    [] c.op = "read"    -> Readable(d, c.via)
    [] OTHER -> FALSE

\* state after a legal command; key is the identity of a newly generated key
After(d, c, key) ==
  CASE c.op = "create" ->
         [meta |-> TRUE, name |-> c.name, purpose |-> c.purpose,
          type |-> TypeFor(c.purpose, c.asym), enc |-> FALSE, vers |-> EmptyFun]
    [] c.op = "addkey" ->
         LET n == MaxVersion(d) + 1
             old == IF c.status = "PRIMARY" THEN Downgrade(d.vers) ELSE d.vers
             new == [st |-> c.status, exp |-> FALSE, key |-> key,
                     size |-> EffSize(d, c.size), seal |-> c.via]
         IN  Reseal([d EXCEPT !.vers = [v \in Versions(d) \cup {n} |->
                                          IF v = n THEN new ELSE old[v]]], c.via)
    [] c.op = "promote" ->
         LET s == d.vers[c.v].st
             base == IF s = "ACTIVE" THEN Downgrade(d.vers) ELSE d.vers
         IN  Reseal([d EXCEPT !.vers = [base EXCEPT ![c.v].st =
                                IF s = "ACTIVE" THEN "PRIMARY" ELSE "ACTIVE"]], c.via)
    [] c.op = "demote" ->
         LET s == d.vers[c.v].st
         IN  Reseal([d EXCEPT !.vers[c.v].st =
                                IF s = "PRIMARY" THEN "ACTIVE" ELSE "INACTIVE"], c.via)
    [] c.op = "revoke" ->
         Reseal([d EXCEPT !.vers = Restrict(d.vers, Versions(d) \ {c.v})], c.via)
    [] c.op = "write" -> Reseal(d, c.via)
    [] c.op = "read" -> d

(* --------------------------- what must hold ------------------------------ *)
AtMostOnePrimary(d) == Cardinality(Primaries(d)) <= 1
DistinctKeys(d) == \A v, w \in Versions(d) : d.vers[v].key = d.vers[w].key => v = w
UniformSeal(d) == \A v \in Versions(d) : (d.vers[v].seal # "") = d.enc

WellFormed(d) ==
  /\ AtMostOnePrimary(d)
  /\ DistinctKeys(d)
  /\ d.meta \/ Versions(d) = {}
  /\ \A v \in Versions(d) : v >= 1 /\ d.vers[v].st \in Statuses
  /\ Versions(d) # {} => UniformSeal(d)
=============================================================================
