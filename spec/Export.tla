------------------------------- MODULE Export -------------------------------
(* Export of the public half of a key set (C09).                             *)
EXTENDS KeyUse
PubType(t) == CASE t = "RSA_PRIV" -> "RSA_PUB" [] t = "DSA_PRIV" -> "DSA_PUB" [] OTHER -> ""
PubPurpose(p) == CASE p = "SIGN_AND_VERIFY" -> "VERIFY" [] p = "DECRYPT_AND_ENCRYPT" -> "ENCRYPT" [] OTHER -> ""
Exportable(d) == d.meta /\ PubType(d.type) # "" /\ PubPurpose(d.purpose) # ""
\* keys keep their identity (both halves have the same identifier)
ExportOf(d) == [d EXCEPT !.type = PubType(d.type), !.purpose = PubPurpose(d.purpose), !.enc = FALSE,
                         !.vers = [v \in Versions(d) |-> [d.vers[v] EXCEPT !.seal = ""]]]
=============================================================================
