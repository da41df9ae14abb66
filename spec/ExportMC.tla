------------------------------ MODULE ExportMC ------------------------------
(* Lifecycle histories with exports at any moment; p is the last export.     *)
EXTENDS Export, Json
CONSTANTS MaxVers, MaxKeys, Depth
VARIABLES d, p, used, outs, hist
vars == <<d, p, used, outs, hist>>
Plain == [op |-> "", purpose |-> "SIGN_AND_VERIFY", asym |-> "rsa", name |-> "n", via |-> "", v |-> 0, status |-> "", size |-> 0]
Cmds == {[Plain EXCEPT !.op = "addkey", !.status = s, !.size = 1024] : s \in Statuses}
  \cup {[Plain EXCEPT !.op = o, !.v = i] : o \in {"promote", "demote", "revoke"}, i \in 1..MaxVers}
Init == d = After(NoSet, [Plain EXCEPT !.op = "create"], 0) /\ p = NoSet /\ used = 0 /\ outs = {} /\ hist = <<>>
Cmd(c) == /\ Legal(d, c) /\ d' = After(d, c, used + 1)
          /\ used' = IF c.op = "addkey" THEN used + 1 ELSE used
          /\ UNCHANGED <<p, outs>>
Exp == /\ Exportable(d) /\ p' = ExportOf(d) /\ UNCHANGED <<d, used, outs>>
Sign == /\ CanProduce(d)
        /\ outs' = outs \cup {[op |-> "sign", key |-> ProducingKey(d), data |-> "x", nonce |-> ""]}
        /\ UNCHANGED <<d, p, used>>
Next == /\ (\E c \in Cmds : Cmd(c)) \/ Exp \/ Sign
        /\ hist' = hist
Spec == Init /\ [][Next]_vars
Bound == MaxVersion(d) <= MaxVers /\ used <= MaxKeys
(* C09 on the design: right after the export both halves open the same       *)
SameView == [][Exp => \A o \in outs : Open(p', o) = Open(d, o)]_vars
SamePrimary == [][Exp => Produce(p') = Produce(d)]_vars
NoPrivateType == p.meta => p.type \in {"RSA_PUB", "DSA_PUB"} /\ p.purpose \in {"VERIFY", "ENCRYPT"}
\* a later export is refused for a set that is public already
NoReExport == p.meta => ~Exportable(p)

(* random histories for replay *)
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : Len(hist) >= 0})
HNext == \E k \in {Pick(1..10)} :
             IF k <= 6 THEN \E c \in {Pick({x \in Cmds : Legal(d, x)})} : Cmd(c) /\ hist' = Append(hist, [step |-> "cmd", c |-> c])
             ELSE Exp /\ hist' = Append(hist, [step |-> "exp", c |-> Plain])
HSpec == Init /\ [][HNext]_vars
PrintHist == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
