---------------------------- MODULE CmdLineTrace ----------------------------
(* Validates recorded keyczart command lines.  Decides C19.                  *)
(* After every line the event carries the projection of every location and   *)
(* the labels of all places whose bytes changed.                             *)
EXTENDS TraceBase, CmdLine
VARIABLES l, st, bad
C(cond, clause) == If(cond, "C19", clause)
Labels(e) == {r.loc : r \in Range(e.dirs)}
WorldOf(e) == [x \in Labels(e) |-> KidDirOf((CHOOSE r \in Range(e.dirs) : r.loc = x).dir)]
Crypters == {"A", "B"}

LineClauses(w, e) ==
  LET a == [cmd |-> e.cmd, toks |-> e.toks]
      o == WorldOf(e)
      legal == LineLegal(w, Crypters, a)
      ok == e.res = "ok"
      t == Target(a)
      newv == IF legal THEN MaxVersion(w[Get(a, "location", "")]) + 1 ELSE 0
      newkey == IF legal /\ newv \in Versions(o[t]) THEN o[t].vers[newv].key ELSE "none"
      exp == AfterLine(w, a, newkey)
  IN  IF e.cmd = "" THEN C(e.changed = <<>>, "an empty command line changed something")
      ELSE IF legal
      THEN    C(ok, "a correct command line failed")
         \cup C(ok => Range(e.changed) \subseteq {t}, "a command changed something other than what it names")
         \cup C(ok => o[t].meta /\ o[t].name = exp[t].name, "name")
         \cup C(ok => o[t].purpose = exp[t].purpose /\ o[t].type = exp[t].type, "purpose or algorithm")
         \cup C(ok => Versions(o[t]) = Versions(exp[t]), "versions")
         \cup C(ok => \A v \in Versions(o[t]) \cap Versions(exp[t]) : o[t].vers[v].st = exp[t].vers[v].st, "status")
         \cup C(ok => \A v \in Versions(o[t]) \cap Versions(exp[t]) : o[t].vers[v].size = exp[t].vers[v].size, "size")
         \cup C(ok => \A v \in Versions(o[t]) \cap Versions(exp[t]) : o[t].vers[v].seal = exp[t].vers[v].seal, "crypter")
         \cup C(ok => o = exp, "the effect is not that of the command")
      ELSE    C(e.changed = <<>> /\ o = w, IF Malformed(a) THEN "a malformed command line changed something"
                                           ELSE "a refused command changed something")
         \cup C(~ok, IF Malformed(a) THEN "a malformed command line is reported as done" ELSE "an impossible command is reported as done")
         \cup C(MentionsCrypter(a) => \A x \in DOMAIN o : x \in DOMAIN w => Plain2(o[x]) \subseteq Plain2(w[x]),
                "a key was written in the clear although a crypter was asked for")

(* genkey: the table of key sets it makes *)
GenSets == [aes |-> <<"DECRYPT_AND_ENCRYPT", "AES", "">>, aescrypted |-> <<"DECRYPT_AND_ENCRYPT", "AES", "G">>,
            hmac |-> <<"SIGN_AND_VERIFY", "HMAC_SHA1", "">>, rsa |-> <<"DECRYPT_AND_ENCRYPT", "RSA_PRIV", "">>,
            rsasign |-> <<"SIGN_AND_VERIFY", "RSA_PRIV", "">>, dsa |-> <<"SIGN_AND_VERIFY", "DSA_PRIV", "">>]
GenPubs == [rsasign |-> "rsasignpublic", dsa |-> "dsapublic"]
GenClauses(e) ==
  LET a == [cmd |-> "genkey", toks |-> e.toks]
      o == WorldOf(e)
  IN  IF Malformed(a) \/ Get(a, "location", "") # "G"
      THEN C(e.changed = <<>>, "a malformed genkey changed something")
           \cup C(e.res # "ok", "a malformed genkey is reported as done")
      ELSE C(e.res = "ok", "genkey failed")
           \cup C(e.res = "ok" => Range(e.changed) \subseteq DOMAIN GenSets \cup Range(GenPubs), "genkey changed something else")
           \cup UNION {LET d == o[x] IN
                  C(d.meta /\ d.name = "Test" /\ d.purpose = GenSets[x][1] /\ d.type = GenSets[x][2] /\ d.enc = (GenSets[x][3] # ""), "genkey: kind of key set")
             \cup C(Versions(d) = {1, 2} /\ d.vers[1].st = "ACTIVE" /\ d.vers[2].st = "PRIMARY", "genkey: versions")
             \cup C(\A v \in Versions(d) : d.vers[v].seal = GenSets[x][3] /\ d.vers[v].size = DefaultSize(d.type), "genkey: size or crypter")
                : x \in DOMAIN GenSets}
           \cup UNION {C(o[GenPubs[x]] = ExportOf(o[x]), "genkey: exported key set") : x \in DOMAIN GenPubs}
           \cup C(e.outs, "genkey: sample outputs")

Fails(s, e) ==
  CASE e.ev = "line" -> LineClauses(s, e)
    [] e.ev = "gen" -> GenClauses(e)
    [] OTHER -> {}
Init == l = 1 /\ bad = <<>> /\ st = EmptyFun
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ bad' = Report(bad, l, Fails(st, e))
     /\ st' = IF e.ev \in {"line", "reset"} THEN WorldOf(e) ELSE st
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
