------------------------------- MODULE RolesMC ------------------------------
(* Enumerates every configuration; checks the design and hands them out.     *)
EXTENDS Roles, Json
CONSTANT MaxVers
VARIABLE c
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Probe == {<<>>, <<"PRIMARY">>, <<"ACTIVE">>, <<"PRIMARY", "PRIMARY">>, <<"INACTIVE", "PRIMARY">>}
Cfg(r, p, t, e, rd, s) == [role |-> r, purpose |-> p, type |-> t, enc |-> e, reader |-> rd, sts |-> s]
Good == {Cfg(r, p, t, e, rd, s) : r \in RoleNames, p \in Purposes, t \in {"AES", "HMAC_SHA1"}, e \in BOOLEAN, rd \in Readers,
                                  s \in SeqsUpTo(Stats, MaxVers)}
Other == {Cfg(r, p, t, e, rd, s) : r \in RoleNames, p \in Purposes, t \in KTypes, e \in BOOLEAN, rd \in Readers, s \in Probe}
\* names the library does not know
Odd == {Cfg(r, p, t, FALSE, "file", s) : r \in RoleNames, p \in Purposes \cup {"TEST", "encrypt", ""},
                                        t \in {"AES", "RC4", ""}, s \in Probe \cup {<<"PRIMARY", "REVOKED">>, <<"active">>}}
Configs == {x \in {y \in Good : Consistent(y.type, y.purpose)} \cup Other : x.reader = "static" => ~x.enc /\ x.sts = <<"PRIMARY">>} \cup {x \in Odd : ~WellFormed(x)}
Init == c \in Configs
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
(* C07 on the design *)
\* nothing can be done with an accepted set that its purpose does not allow
NoExtraRight == Accept(c) => Able(c) \subseteq Rights(c.purpose)
\* the key of a public or encrypt-only set never decrypts or signs
PublicStaysPublic == (Accept(c) /\ c.purpose \in {"ENCRYPT", "VERIFY"}) => Able(c) \cap {"dec", "sign"} = {}
\* what a weaker role refuses a stronger role of the same kind refuses too
Weaker == {<<"Encrypter", "Crypter">>, <<"Verifier", "Signer">>, <<"UnversionedVerifier", "UnversionedSigner">>,
           <<"GenericKeyczar", "Encrypter">>, <<"GenericKeyczar", "Verifier">>}
Monotone == \A w \in Weaker : (c.role = w[2] /\ Accept(c)) => Accept([c EXCEPT !.role = w[1]])
SealedNeedsSealReader == (Accept(c) /\ c.enc) => c.reader \in SealReaders
OnePrimary == Accept(c) => Primaries(c.sts) <= 1
Out == PrintT(<<"CFG", ToJson(c)>>)
=============================================================================
