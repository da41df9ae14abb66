------------------------------- MODULE Session ------------------------------
(* Sessions: a fresh key (and, when signed, a nonce) wrapped for a recipient, *)
(* messages under that key, optionally signed together with the nonce.        *)
(* Wrapping and signing key sets rotate; S is the expected signer, M another  *)
(* party with its own signing keys who may also run sessions and who sees     *)
(* (and may know the nonce of) everything.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
Parties == {"S", "M"}
\* a key set: present versions, primary (0: none), number of versions ever made
NewKeys == [has |-> {1}, prim |-> 1, made |-> 1]
Rotate(k) == [has |-> k.has \cup {k.made + 1}, prim |-> k.made + 1, made |-> k.made + 1]
\* a version other than the primary is taken out (demoted and revoked)
RevokeOld(k, v) == [k EXCEPT !.has = @ \ {v}]
\* the primary is demoted: nothing can be wrapped or signed until a new one
Disable(k) == [k EXCEPT !.prim = 0]

\* sessions: kind, wrapping version, signer and its
\* key.  messages: kind, the session and
\* number of the body, who signed with which version, and for which session's
\* nonce (0: none).  decrypters: kind, session, signature keys they trust.
MayOpen(w, sig, kind, by) == w.prim # 0
\* the signer object of a session keeps the primary key it was loaded with
MaySend(s) == s.kind = "plain" \/ s.sk # 0
MayBuild(w, s, kind) == s.wv \in w.has /\ s.kind = kind
Trusted(sig, who) == {<<who, v>> : v \in sig[who].has}
Accept(d, m) ==
  /\ d.kind = m.kind
  /\ m.body = d.sess
  /\ d.kind = "signed" => (m.sigby \in d.keys /\ m.nonceof = d.sess)
=============================================================================
