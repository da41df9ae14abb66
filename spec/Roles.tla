-------------------------------- MODULE Roles -------------------------------
(* Which role may be built from which key set through which reader (C07).    *)
EXTENDS Base

Purposes == {"DECRYPT_AND_ENCRYPT", "ENCRYPT", "SIGN_AND_VERIFY", "VERIFY"}
KTypes == {"AES", "HMAC_SHA1", "DSA_PRIV", "DSA_PUB", "RSA_PRIV", "RSA_PUB"}
Stats == {"PRIMARY", "ACTIVE", "INACTIVE"}
RoleNames == {"Encrypter", "Crypter", "Signer", "Verifier", "UnversionedSigner", "UnversionedVerifier", "GenericKeyczar",
              "Keyczar"}
\* what a purpose allows, and what a role gives its holder
Rights(p) == CASE p = "DECRYPT_AND_ENCRYPT" -> {"enc", "dec"}
               [] p = "ENCRYPT" -> {"enc"}
               [] p = "SIGN_AND_VERIFY" -> {"sign", "ver"}
               [] p = "VERIFY" -> {"ver"}
               [] OTHER -> {}
Gives(r) == CASE r = "Encrypter" -> {"enc"}
              [] r = "Crypter" -> {"enc", "dec"}
              [] r = "Signer" -> {"sign", "ver"}
              [] r = "UnversionedSigner" -> {"sign", "ver"}
              [] r = "Verifier" -> {"ver"}
              [] r = "UnversionedVerifier" -> {"ver"}
              [] OTHER -> {}
\* the abstract base class is no role at all
Fits(r, p) == r # "Keyczar" /\ p \in Purposes /\ Gives(r) \subseteq Rights(p)
Consistent(t, p) == CASE t = "AES" -> p = "DECRYPT_AND_ENCRYPT"
                      [] t = "HMAC_SHA1" -> p = "SIGN_AND_VERIFY"
                      [] t = "DSA_PRIV" -> p = "SIGN_AND_VERIFY"
                      [] t = "DSA_PUB" -> p = "VERIFY"
                      [] t = "RSA_PRIV" -> p \in {"SIGN_AND_VERIFY", "DECRYPT_AND_ENCRYPT"}
                      [] t = "RSA_PUB" -> p \in {"ENCRYPT", "VERIFY"}
                      [] OTHER -> FALSE
(* readers: file and read (the class's own Read), mock and custom and static   *)
(* (one imported key) deliver the stored text; encfile, encmock and encsub (a subclass) decrypt it      *)
PlainReaders == {"file", "read", "mock", "custom", "static"}
SealReaders == {"encfile", "encmock", "encsub"}
Readers == PlainReaders \cup SealReaders

\* cfg: role, purpose, type, enc (the flag), reader, sts (statuses, in order);
\* the stored keys are sealed iff the flag says so
Primaries(sts) == Cardinality({i \in DOMAIN sts : sts[i] = "PRIMARY"})
WellFormed(c) == c.type \in KTypes /\ c.purpose \in Purposes /\ \A i \in DOMAIN c.sts : c.sts[i] \in Stats
Readable(c) == Len(c.sts) = 0 \/ (c.enc = (c.reader \in SealReaders))
Accept(c) == /\ WellFormed(c)
             /\ Fits(c.role, c.purpose)
             /\ c.enc => c.reader \in SealReaders
             /\ Readable(c)
             /\ Primaries(c.sts) <= 1
\* what can be done with the accepted object
Able(c) == {a \in Gives(c.role) : /\ a \in {"enc", "sign"} => Primaries(c.sts) = 1
                                  /\ a \in {"dec", "ver"} => Len(c.sts) > 0}
=============================================================================
