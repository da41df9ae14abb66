-------------------------------- MODULE Wire --------------------------------
(* The Keyczar wire and storage format at byte level.                        *)
(*                                                                           *)
(* Byte strings are hexadecimal strings.  The cryptographic primitives are   *)
(* uninterpreted functions, given by an evaluation table T: a sequence of    *)
(* records [f, k, i, o] stating f(k, i) = o, computed by an implementation   *)
(* independent of the code under test.  Everything that is format --         *)
(* headers, lengths, padding, what exactly is signed, EMSA-PKCS1 and DER     *)
(* encodings, OAEP blocks, key identifiers, packed arrays, file fields -- is *)
(* written down here.                                                        *)
(*   hmac(k, m)      HMAC-SHA1                sha1("", m)    SHA-1           *)
(*   cbcdec(k, iv|c) AES-CBC decryption without padding                      *)
(*   rsapriv(n, c)   c^d mod n, modulus length   rsapub(n, s)  s^e mod n     *)
(*   unmask("", em)  OAEP: seed|DB recovered from maskedSeed|maskedDB        *)
(*   dsaver(kid, h|r|s)  "01" iff (r, s) is a DSA signature of the digest h  *)
EXTENDS Base64

T_Ask(T, fn, key, in) ==
  LET hits == {j \in DOMAIN T : T[j].f = fn /\ T[j].k = key /\ T[j].i = in}
  IN  IF hits = {} THEN "?" ELSE T[CHOOSE j \in hits : TRUE].o
Sha1(T, m) == T_Ask(T, "sha1", "", m)
EmptyHash == "da39a3ee5e6b4b0d3255bfef95601890afd80709"

Version == "00"
Header(k) == Version \o k.kid
Packed(h) == Int4(BLen(h)) \o h

(* ---- symmetric encryption: 00 | kid | IV | CBC(PKCS5(data)) | MAC ---- *)
Pad(h) == LET p == 16 - (BLen(h) % 16) IN h \o RepB(ByteHex(p), p)
AesOk(T, k, raw, data) ==
  /\ BLen(raw) = 5 + 16 + BLen(data) + (16 - (BLen(data) % 16)) + 20
  /\ Take(raw, 5) = Header(k)
  /\ LastB(raw, 20) = T_Ask(T, "hmac", k.hmac, ButLast(raw, 20))
  /\ T_Ask(T, "cbcdec", k.aes, ButLast(Drop(raw, 5), 20)) = Pad(data)

(* ---- RSA encryption: 00 | kid | RSA(OAEP(data)), modulus length ---- *)
OaepBlock(data, k) == EmptyHash \o RepB("00", k - BLen(data) - 42) \o "01" \o data
RsaEncOk(T, k, raw, data) ==
  /\ BLen(data) <= k.k - 42
  /\ BLen(raw) = 5 + k.k
  /\ Take(raw, 5) = Header(k)
  /\ LET em == T_Ask(T, "rsapriv", k.n, Drop(raw, 5))
     IN  /\ BLen(em) = k.k
         /\ Take(em, 1) = "00"
         /\ Drop(T_Ask(T, "unmask", "", em), 20) = OaepBlock(data, k.k)

(* ---- signatures ---- *)
\* what is signed: versioned data|00, attached data|len(nonce)|nonce|00, unversioned data
Signed(op, data, nonce) ==
  CASE op = "sign" -> data \o Version
    [] op = "att"  -> data \o Packed(nonce) \o Version
    [] op = "unv"  -> data
Sha1Der == "3021300906052b0e03021a05000414"
Emsa(hash, k) == "0001" \o RepB("ff", k - 38) \o "00" \o Sha1Der \o hash

\* DER integers: minimal, non-negative; lengths below 128
IsDerPos(v) == /\ BLen(v) >= 1
               /\ ByteVal(Take(v, 1)) < 128
               /\ BLen(v) > 1 => (ByteVal(Take(v, 1)) # 0 \/ ByteVal(Bytes(v, 2, 2)) >= 128)
DerInt(v) == "02" \o ByteHex(BLen(v)) \o v
DerPair(r, s) == LET c == DerInt(r) \o DerInt(s) IN "30" \o ByteHex(BLen(c)) \o c
\* the two integers a DER signature would have to hold
DerR(sig) == IF BLen(sig) < 8 THEN "" ELSE SubSeq(sig, 9, MinOf({Len(sig), 8 + 2 * ByteVal(Bytes(sig, 4, 4))}))
DerS(sig) == LET r == BLen(DerR(sig))
             IN  IF BLen(sig) < 6 + r THEN "" ELSE Drop(sig, 6 + r)
TrimB(v) == IF BLen(v) > 1 /\ Take(v, 1) = "00" THEN Drop(v, 1) ELSE v

SigOk(T, k, msg, sig) ==
  CASE k.type = "HMAC_SHA1" -> sig = T_Ask(T, "hmac", k.hmac, msg)
    [] k.type \in {"RSA_PRIV", "RSA_PUB"} ->
         /\ BLen(sig) = k.k
         /\ T_Ask(T, "rsapub", k.n, sig) = Emsa(Sha1(T, msg), k.k)
    [] k.type \in {"DSA_PRIV", "DSA_PUB"} ->
         LET r == DerR(sig)
             s == DerS(sig)
         IN  /\ r # "" /\ s # "" /\ BLen(sig) < 130
             /\ sig = DerPair(r, s)
             /\ IsDerPos(r) /\ IsDerPos(s)
             /\ T_Ask(T, "dsaver", k.kid, Sha1(T, msg) \o r \o s) = "01"
    [] OTHER -> FALSE

SignOk(T, k, raw, data) == Take(raw, 5) = Header(k) /\ SigOk(T, k, Signed("sign", data, ""), Drop(raw, 5))
AttPrefix(k, data) == Header(k) \o Packed(data)
AttOk(T, k, raw, data, nonce) ==
  /\ IsPrefixB(AttPrefix(k, data), raw)
  /\ SigOk(T, k, Signed("att", data, nonce), Drop(raw, 9 + BLen(data)))

\* raw is a well-formed output of operation op with key k for data and nonce
Valid(T, op, k, raw, data, nonce) ==
  CASE op \in {"enc", "encs"} -> IF k.type = "AES" THEN AesOk(T, k, raw, data) ELSE RsaEncOk(T, k, raw, data)
    [] op = "sign" -> SignOk(T, k, raw, data)
    [] op = "att"  -> AttOk(T, k, raw, data, nonce)
    [] op = "unv"  -> SigOk(T, k, data, raw)
    [] OTHER -> FALSE

(* ---- sessions ---- *)
\* plain session: count, AES key, HMAC key, each length-prefixed
SessionPlain(aes, hmac) == Int4(2) \o Packed(aes) \o Packed(hmac)

(* ---- keys ---- *)
\* key identifiers
KidOf(T, j) ==
  LET full ==
    CASE j.type = "AES" -> Sha1(T, Packed(j.aes) \o j.hmac)
      [] j.type = "HMAC_SHA1" -> Sha1(T, j.hmac)
      [] j.type \in {"RSA_PRIV", "RSA_PUB"} -> Sha1(T, Packed(j.n) \o Packed(j.e))
      [] OTHER -> Sha1(T, Packed(j.p) \o Packed(j.q) \o Packed(j.g) \o Packed(j.y))
  IN  Take(full, 4)

\* fields of a key file; the values of all others than "size", "mode" and the
\* nested objects are web-safe Base64
TopFields(type) ==
  CASE type = "AES" -> {"mode", "size", "aesKeyString", "hmacKey"}
    [] type = "HMAC_SHA1" -> {"size", "hmacKeyString"}
    [] type = "RSA_PUB" -> {"modulus", "publicExponent", "size"}
    [] type = "DSA_PUB" -> {"p", "q", "g", "y", "size"}
    [] type = "RSA_PRIV" -> {"publicKey", "privateExponent", "primeP", "primeQ", "primeExponentP",
                             "primeExponentQ", "crtCoefficient", "size"}
    [] type = "DSA_PRIV" -> {"publicKey", "x", "size"}
SubFields(type) ==
  CASE type = "AES" -> {"size", "hmacKeyString"}
    [] type = "RSA_PRIV" -> {"modulus", "publicExponent", "size"}
    [] type = "DSA_PRIV" -> {"p", "q", "g", "y", "size"}
    [] OTHER -> {}
BigNames == {"modulus", "publicExponent", "privateExponent", "primeP", "primeQ", "primeExponentP",
             "primeExponentQ", "crtCoefficient", "p", "q", "g", "y", "x"}
\* big integers are two's complement: a set top bit needs a leading zero byte
Positive(v) == BLen(v) >= 1 /\ ByteVal(Take(v, 1)) < 128

MetaFields == {"name", "purpose", "type", "encrypted", "versions"}
VersionFields == {"versionNumber", "status", "exportable"}
Purposes4 == {"DECRYPT_AND_ENCRYPT", "ENCRYPT", "SIGN_AND_VERIFY", "VERIFY"}
Types6 == {"AES", "HMAC_SHA1", "RSA_PRIV", "RSA_PUB", "DSA_PRIV", "DSA_PUB"}
=============================================================================
