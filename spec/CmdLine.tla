------------------------------ MODULE CmdLine ------------------------------
(* The command line of keyczart (C19).  A line is a record                   *)
(*   cmd    the command word ("" : no arguments at all)                      *)
(*   toks   the arguments after it: [k, f, val] where k tells how the        *)
(*          argument is written:                                             *)
(*            "flag"     --f=val with a known flag f                         *)
(*            "unknown"  a misspelling of --f=val                            *)
(*            "noeq"     --f without a value                                 *)
(*            "bare"     an argument that does not start with two dashes     *)
(* and a world is a function from locations to stored key sets.              *)
EXTENDS Export

Commands == {"create", "addkey", "pubkey", "promote", "demote", "revoke", "genkey"}
FlagNames == {"location", "name", "size", "status", "purpose", "destination", "version", "asymmetric", "crypter"}

\* the numerals that occur; every other text is not a number
NumOf == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("99" :> 99) @@
         ("64" :> 64) @@ ("100" :> 100) @@ ("128" :> 128) @@ ("192" :> 192) @@ ("256" :> 256) @@ ("1024" :> 1024) @@ ("2048" :> 2048)
Numeric(v) == v \in DOMAIN NumOf

(* ------------------------------- parsing --------------------------------- *)
Where(a, f) == {i \in DOMAIN a.toks : a.toks[i].k = "flag" /\ a.toks[i].f = f}
Has(a, f) == Where(a, f) # {}
Get(a, f, dflt) == IF Has(a, f) THEN a.toks[MaxOf(Where(a, f))].val ELSE dflt    \* the last one counts
Malformed(a) ==
  \/ a.cmd \notin Commands
  \/ \E t \in Range(a.toks) : t.k # "flag"
  \/ \E f \in {"size", "version"} : Has(a, f) /\ ~Numeric(Get(a, f, ""))

StatusOf(v) == CASE v \in {"primary", "PRIMARY", "Primary"} -> "PRIMARY"
                 [] v \in {"active", "ACTIVE", "aCTIVE"} -> "ACTIVE"
                 [] v \in {"inactive", "INACTIVE"} -> "INACTIVE"
                 [] OTHER -> v
PurposeOf(v) == CASE v = "crypt" -> "DECRYPT_AND_ENCRYPT" [] v = "sign" -> "SIGN_AND_VERIFY" [] OTHER -> ""
AsymOf(a) == IF ~Has(a, "asymmetric") THEN ""
             ELSE IF Get(a, "asymmetric", "") \in {"rsa", "RSA", "Rsa"} THEN "rsa" ELSE "dsa"
\* the management command a line stands for
CmdOf(a) == [op |-> a.cmd, via |-> IF a.cmd = "addkey" THEN Get(a, "crypter", "") ELSE "",
             v |-> IF Has(a, "version") THEN NumOf[Get(a, "version", "")] ELSE 0,
             status |-> StatusOf(Get(a, "status", "ACTIVE")),
             size |-> IF Has(a, "size") THEN NumOf[Get(a, "size", "")] ELSE 0,
             purpose |-> PurposeOf(Get(a, "purpose", "")), asym |-> AsymOf(a), name |-> Get(a, "name", "Test")]

(* ------------------------------- effect ---------------------------------- *)
\* crypters: the locations of usable crypters
LineLegal(w, crypters, a) ==
  /\ ~Malformed(a)
  /\ Get(a, "location", "") \in DOMAIN w
  /\ LET c == CmdOf(a)
         d == w[Get(a, "location", "")]
     IN  CASE a.cmd = "pubkey" -> Readable(d, "") /\ Exportable(d) /\ Get(a, "destination", "") \in DOMAIN w
                                   /\ Get(a, "destination", "") # Get(a, "location", "")   \* would destroy the private keys
           [] a.cmd = "addkey" -> (c.via = "" \/ c.via \in crypters) /\ Legal(d, c)
           [] OTHER -> Legal(d, c)
Target(a) == IF a.cmd = "pubkey" THEN Get(a, "destination", "") ELSE Get(a, "location", "")
AfterLine(w, a, key) ==
  LET d == w[Get(a, "location", "")]
  IN  [w EXCEPT ![Target(a)] = IF a.cmd = "pubkey" THEN ExportOf(d) ELSE After(d, CmdOf(a), key)]
Run(w, crypters, a, key) == IF LineLegal(w, crypters, a) THEN AfterLine(w, a, key) ELSE w

\* a line that says anything about a crypter, well-formed or not
MentionsCrypter(a) == \E t \in Range(a.toks) : t.f = "crypter"
Plain2(d) == {d.vers[v].key : v \in {x \in Versions(d) : d.vers[x].seal = ""}}
=============================================================================
