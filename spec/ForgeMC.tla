------------------------------ MODULE ForgeMC -------------------------------
(* Enumerates every recipe and every re-use of a signature, checks C05/C06   *)
(* on the design, and prints the recipes that are replayed on the code.      *)
EXTENDS Forge
CONSTANTS MaxAltered,   \* parts of a ciphertext that are not record 1's own
          Emitting
VARIABLES kind, rc
vars == <<kind, rc>>
Altered(r) == Cardinality({i \in 1..6 : r[i] # "own"})
Init == kind = "aes" /\ rc = <<>>
Extend == kind = "aes" /\ Len(rc) < 6 /\ \E c \in Choices : rc' = Append(rc, c) /\ kind' = kind
Switch == kind = "aes" /\ rc = <<>> /\ kind' = "sig" /\ \E s \in Triples : rc' = <<s>>
Pick == kind = "sig" /\ Len(rc) = 1 /\ \E t \in Triples : rc' = Append(rc, t) /\ kind' = kind
Next == Extend \/ Switch \/ Pick
Spec == Init /\ [][Next]_vars
Bound == kind = "aes" => Cardinality({i \in DOMAIN rc : rc[i] # "own"}) <= MaxAltered

C05 == (kind = "aes" /\ Len(rc) = 6) => OnlyHonest(rc)
C06 == (kind = "sig" /\ Len(rc) = 2) => \A k, k2 \in SigKeys : OnlySigned(k, rc[1], k2, rc[2])
\* honest outputs are accepted
Complete == /\ (kind = "aes" /\ Len(rc) = 6 /\ Altered(rc) = 0) => Open(Assemble(rc)) = "ok"
            /\ (kind = "sig" /\ Len(rc) = 2 /\ rc[1] = rc[2]) => Accepts("a", rc[1], "a", rc[2])
Emit == (Emitting /\ Bound) =>
          /\ (kind = "aes" /\ Len(rc) = 6) => PrintT(<<"AES", ToJson(rc)>>)
          /\ (kind = "sig" /\ Len(rc) = 2 /\ rc[1] # rc[2]) => PrintT(<<"SIG", ToJson(rc)>>)
=============================================================================
