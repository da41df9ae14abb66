----------------------------- MODULE WireTrace ------------------------------
(* Validation of recorded outputs, files and reference-made inputs against   *)
(* the byte-level format Wire.  Decides C14.                                 *)
EXTENDS Wire, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {} ELSE {clause}

\* bytes an implementation may append to a DSA signature (Java pads with zeros)
Zeros(h) == h = RepB("00", BLen(h))

OutClauses(e) ==
  IF e.res # "ok" THEN {"producing an output failed"} ELSE
       If(Valid(e.tab, e.op, e.key, e.raw, e.data, e.nonce), "an output does not have the published layout: " \o e.op)
  \cup If(e.b64 => e.text = Enc(e.raw), "an output is not the web-safe Base64 text of its bytes")

OpenClauses(e) ==
  LET body == ButLast(e.raw, e.pad)
      valid == /\ Valid(e.tab, e.op, e.key, body, e.data, e.nonce)
               /\ e.pad > 0 => Zeros(LastB(e.raw, e.pad)) /\ e.key.type \in {"DSA_PRIV", "DSA_PUB"}
  IN  \* the reference has to be right about what it feeds to the code
      If(valid, "reference input outside the format (error of the machinery)")
      \cup If(valid => e.res = "ok", "a well-formed input is refused: " \o e.op)
      \cup If((valid /\ e.res = "ok") => e.val = "right", "a well-formed input is opened to the wrong value: " \o e.op)

KeyClauses(e) ==
  IF e.form # "ok" THEN {"a key file is malformed"} ELSE
       If(Range(e.fields) = TopFields(e.type), "a key file has other fields than published")
  \cup If(Range(e.sub) = SubFields(e.type), "the nested key of a key file has other fields than published")
  \cup If(\A i \in DOMAIN e.b64 : e.b64[i][1] = Enc(e.b64[i][2]), "key file value is not web-safe Base64")
  \cup If(\A i \in DOMAIN e.big : Positive(e.big[i]), "a number in a key file reads as negative")
  \cup If(e.size = e.bits, "a key file states the wrong key size")
  \cup If(e.type = "AES" => e.mode = "CBC" /\ e.subsize = 4 * Len(e.j.hmac), "AES key file: wrong mode or HMAC size")
  \cup If(e.type \in {"RSA_PRIV", "DSA_PRIV"} => e.subsize = e.size, "public half states another size")
  \cup If(e.arith, "the numbers of a key file do not fit together")
  \cup If(KidOf(e.tab, e.j) = e.kid, "the key identifier is not the published hash of the key")

MetaClauses(e) ==
  IF e.form # "ok" THEN {"the metadata file is malformed"} ELSE
       If(Range(e.fields) = MetaFields, "metadata has other fields than published")
  \cup If(e.purpose \in Purposes4 /\ e.type \in Types6 /\ e.kinds, "metadata has values outside the format")
  \cup If(\A i \in DOMAIN e.vers : /\ Range(e.vers[i].fields) = VersionFields
                                    /\ e.vers[i].st \in {"PRIMARY", "ACTIVE", "INACTIVE"}
                                    /\ e.vers[i].kinds, "a version entry does not have the published form")

SessClauses(e) ==
  IF e.res # "ok" \/ e.form # "ok" THEN {"a session could not be made or read"} ELSE
  If(BLen(e.key.aes) = 16 /\ BLen(e.key.hmac) = 32, "session keys of unusual length")
  \cup (IF e.kind = "plain"
        THEN      If(e.pt = SessionPlain(e.key.aes, e.key.hmac), "session material is not the packed pair of keys")
             \cup If(Valid(e.mtab, "enc", e.key, e.msg, e.data, ""), "a session message is not a ciphertext under the session key")
        ELSE      If(Range(e.fields) = {"key", "nonce"} /\ BLen(e.nonce) = 16, "signed session material has another form")
             \cup If(Valid(e.mtab, "enc", e.key, e.inner, e.data, ""), "a signed session message holds no ciphertext under the session key")
             \cup If(Valid(e.stab, "att", e.skey, e.msg, e.inner, e.nonce), "a signed session message is not signed over ciphertext and nonce"))

Fails(e) ==
  CASE e.ev = "out" -> OutClauses(e)
    [] e.ev = "open" -> OpenClauses(e)
    [] e.ev = "keyfile" -> KeyClauses(e)
    [] e.ev = "meta" -> MetaClauses(e)
    [] e.ev = "sess" -> SessClauses(e)
    [] e.ev = "refuse" -> If(e.res = "err" /\ e.kz, "an over-long message is not refused with a Keyczar error")
    [] e.ev = "golden" -> If(e.res = "ok" /\ e.got = e.want, "published data is not read correctly: " \o e.what)
    [] OTHER -> {}

Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ LET f == Fails(Trace[l])
     IN  bad' = IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, CHOOSE x \in f : TRUE>>)
  /\ l' = l + 1
  /\ l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad', known |-> <<>>])>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
