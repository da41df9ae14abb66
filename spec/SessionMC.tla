------------------------------ MODULE SessionMC -----------------------------
EXTENDS Session
CONSTANTS MaxSess, MaxMsg, MaxDec, MaxKeys
VARIABLES w, sig, sess, msgs, decs, signed
\* signed: history of what each party really signed: <<party, body session, nonce session>>
vars == <<w, sig, sess, msgs, decs, signed>>
Init == w = NewKeys /\ sig = [p \in Parties |-> NewKeys] /\ sess = <<>> /\ msgs = <<>> /\ decs = <<>> /\ signed = {}
RotW == /\ \/ w.made < MaxKeys /\ w' = Rotate(w)
           \/ \E v \in w.has \ {w.prim} : w' = RevokeOld(w, v)
           \/ w.prim # 0 /\ w' = Disable(w)
        /\ UNCHANGED <<sig, sess, msgs, decs, signed>>
RotS == \E p \in Parties :
        /\ \/ sig[p].made < MaxKeys /\ sig' = [sig EXCEPT ![p] = Rotate(@)]
           \/ \E v \in sig[p].has \ {sig[p].prim} : sig' = [sig EXCEPT ![p] = RevokeOld(@, v)]
        /\ UNCHANGED <<w, sess, msgs, decs, signed>>
Open == /\ Len(sess) < MaxSess
        /\ \E k \in {"plain", "signed"}, p \in Parties :
             /\ MayOpen(w, sig, k, p) /\ (k = "plain" => p = "S")
             /\ sess' = Append(sess, [kind |-> k, wv |-> w.prim, by |-> p, sk |-> sig[p].prim])
        /\ UNCHANGED <<w, sig, msgs, decs, signed>>
Send == /\ Len(msgs) < MaxMsg
        /\ \E i \in DOMAIN sess :
             /\ MaySend(sess[i])
             /\ LET by == IF sess[i].kind = "plain" THEN <<"", 0>> ELSE <<sess[i].by, sess[i].sk>>
                IN msgs' = Append(msgs, [kind |-> sess[i].kind, body |-> i, sigby |-> by, nonceof |-> IF sess[i].kind = "plain" THEN 0 ELSE i])
             /\ signed' = IF sess[i].kind = "plain" THEN signed ELSE signed \cup {<<sess[i].by, i, i>>}
        /\ UNCHANGED <<w, sig, sess, decs>>
\* M signs any body it has seen with any nonce; anyone may cross signatures
Forge == /\ Len(msgs) < MaxMsg
         /\ \E m \in DOMAIN msgs, j \in 0 .. Len(sess) :
              \/ /\ sig["M"].prim # 0
                 /\ msgs' = Append(msgs, [kind |-> "signed", body |-> msgs[m].body, sigby |-> <<"M", sig["M"].prim>>, nonceof |-> j])
                 /\ signed' = signed \cup {<<"M", msgs[m].body, j>>}
              \/ /\ msgs[m].kind = "signed" /\ msgs' = Append(msgs, [msgs[m] EXCEPT !.kind = "plain", !.sigby = <<"", 0>>, !.nonceof = 0])
                 /\ signed' = signed
              \/ /\ j > 0 /\ msgs' = Append(msgs, [kind |-> "signed", body |-> j, sigby |-> <<"", 0>>, nonceof |-> 0])
                 /\ signed' = signed
         /\ UNCHANGED <<w, sig, sess, decs>>
Build == /\ Len(decs) < MaxDec
         /\ \E i \in DOMAIN sess, p \in Parties, k \in {"plain", "signed"} :
              /\ MayBuild(w, sess[i], k)
              /\ decs' = Append(decs, [kind |-> k, sess |-> i, keys |-> IF k = "plain" THEN {} ELSE Trusted(sig, p)])
         /\ UNCHANGED <<w, sig, sess, msgs, signed>>
Next == RotW \/ RotS \/ Open \/ Send \/ Forge \/ Build
Spec == Init /\ [][Next]_vars

\* C13: only messages of that very session, signed by the expected signer for it
Bound == \A d \in {decs[i] : i \in DOMAIN decs}, m \in {msgs[i] : i \in DOMAIN msgs} :
           Accept(d, m) => m.body = d.sess /\ (d.kind = "signed" => \E p \in Parties : <<p, 0>> \notin d.keys /\ m.sigby[1] = p
                                                 /\ <<p, m.body, m.nonceof>> \in signed /\ \A x \in d.keys : x[1] = p)
\* every honest message of a session opens in every decrypter of the session
\* that trusts its signer and still has (or had, when loaded) the signing key
Delivered == \A i \in DOMAIN decs, j \in DOMAIN msgs :
               LET d == decs[i]  m == msgs[j]
               IN (m.body = d.sess /\ m.kind = d.kind /\ m.nonceof = (IF d.kind = "plain" THEN 0 ELSE m.body) /\ (d.kind = "plain" \/ m.sigby \in d.keys))
                     => Accept(d, m)
=============================================================================
