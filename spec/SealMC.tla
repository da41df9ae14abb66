------------------------------- MODULE SealMC -------------------------------
(* Bounded model: a managed set d, its crypter a under rotation, a crypter   *)
(* snapshot h that may be stale, and a foreign crypter b.                    *)
EXTENDS Seal, Json
CONSTANTS MaxVers, MaxKeys, MaxA
VARIABLES d, a, h, used
vars == <<d, a, h, used>>
Plain == [op |-> "", purpose |-> "SIGN_AND_VERIFY", asym |-> "", name |-> "n", via |-> "", v |-> 0, status |-> "", size |-> 0]
Cmds(n) == {[Plain EXCEPT !.op = "addkey", !.status = s] : s \in Statuses}
      \cup {[Plain EXCEPT !.op = o, !.v = i] : o \in {"promote", "demote", "revoke"}, i \in 1..n}
AKey(n) == <<"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9">>[n]
B == [meta |-> TRUE, name |-> "b", purpose |-> "DECRYPT_AND_ENCRYPT", type |-> "AES", enc |-> FALSE,
      vers |-> 1 :> [st |-> "PRIMARY", exp |-> FALSE, key |-> "kb", size |-> 128, seal |-> ""]]
A0 == [B EXCEPT !.vers = 1 :> [st |-> "PRIMARY", exp |-> FALSE, key |-> "k1", size |-> 128, seal |-> ""]]
With(w) == CASE w = "none" -> NoSet [] w = "b" -> B [] OTHER -> h
Withs == {"none", "h", "b"}
Init == /\ d = After(NoSet, [Plain EXCEPT !.op = "create"], 0)
        /\ a = A0 /\ h = A0 /\ used = <<0, 1>>
ACmd(c) == /\ Legal(a, c)
           /\ a' = After(a, c, IF c.op = "addkey" THEN AKey(used[2] + 1) ELSE "")
           /\ used' = IF c.op = "addkey" THEN <<used[1], used[2] + 1>> ELSE used
           /\ UNCHANGED <<d, h>>
LoadC == h' = a /\ UNCHANGED <<d, a, used>>
DCmd(c, w) == /\ IF CLegal(d, c, With(w), used[1] + 1)
                 THEN /\ d' = CAfter(d, c, With(w), used[1] + 1)
                      /\ used' = IF c.op = "addkey" THEN <<used[1] + 1, used[2]>> ELSE used
                 ELSE UNCHANGED <<d, used>>
              /\ UNCHANGED <<a, h>>
Next == (\E c \in Cmds(MaxA) : used[2] < MaxA /\ ACmd(c)) \/ LoadC \/ \E c \in Cmds(MaxVers), w \in Withs : DCmd(c, w)
Spec == Init /\ [][Next]_vars
Bound == MaxVersion(d) <= MaxVers /\ used[1] <= MaxKeys

(* C08 on the design *)
AllSealed == d.enc => \A v \in Versions(d) : d.vers[v].seal # ""
\* a set managed with a crypter is marked and never changes without one
StaysSealed == [][d.enc => d'.enc]_vars
OnlyWithCrypter == [][\A c \in Cmds(MaxVers) : DCmd(c, "none") /\ d.enc => d' = d]_vars
ForeignNeverReads == (d.enc /\ Versions(d) # {} /\ d.vers[MaxVersion(d)].seal # "kb") => ~ReadableC(d, B) /\ ~ReadableC(d, NoSet)
\* whatever changes a sealed set seals all of it under one primary key
Uniform == \A v, w \in Versions(d) : d.vers[v].seal = d.vers[w].seal
\* rotating the crypter keeps the set readable; only revoking the sealing key ends that
RotationSafe == [][(ReadableC(d, a) /\ UNCHANGED d) => (ReadableC(d, a') \/ \E v \in Versions(a) \ Versions(a') :
                       a.vers[v].key \in {d.vers[w].seal : w \in Versions(d)})]_vars
=============================================================================
