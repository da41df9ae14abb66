----------------------------- MODULE ForgeTrace -----------------------------
(* Judges every attempt to open something against the history of honest      *)
(* outputs.  Decides C05, C06 and C17.                                       *)
EXTENDS Forge, IOUtils
VARIABLES l, st, bad, known
\* st.kids: identifiers of the keys of the set; st.sealed, st.signed: honest outputs
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
If(cond, prop, clause) == IF cond THEN {} ELSE {<<prop, clause>>}

DecErrors == {"ShortCiphertextError", "BadVersionError", "KeyNotFoundError", "InvalidSignatureError"}

(* ------------------------------ decryption ------------------------------- *)
Match(s, raw) == {i \in DOMAIN s.sealed : s.sealed[i].raw = raw}
DecClauses(s, a) ==
  LET m == Match(s, a.raw)
      ok == a.res = "ok"
      inset(i) == s.sealed[i].kid \in s.kids
  IN  IF a.kt = "AES"
      THEN     If(ok => \E i \in m : inset(i), "C05", "a ciphertext that nobody produced was accepted")
          \cup If((ok /\ m # {}) => \E i \in m : a.val = s.sealed[i].pt, "C05", "an honest ciphertext gave another plaintext")
          \cup If(~ok => a.err \in (DecErrors \cup IF a.text THEN {"Base64DecodingError"} ELSE {}), "C05",
                  "a bad ciphertext raised an undocumented error")
      ELSE If(ok => IF m # {} THEN \E i \in m : a.val = s.sealed[i].pt
                             ELSE a.base \in DOMAIN s.sealed /\ a.val = s.sealed[a.base].pt, "C05",
              "a modified RSA ciphertext decrypted to something else")

(* ------------------------------ verification ----------------------------- *)
\* the data an attached blob claims to carry; "?" if its length field is impossible
BlobLen(raw) == IF BLen(raw) < 9 \/ ByteVal(Bytes(raw, 6, 6)) # 0 THEN 999999999
                ELSE 65536 * ByteVal(Bytes(raw, 7, 7)) + 256 * ByteVal(Bytes(raw, 8, 8)) + ByteVal(Bytes(raw, 9, 9))
BlobData(raw) == IF BlobLen(raw) > BLen(raw) - 9 THEN "?" ELSE Bytes(raw, 10, 9 + BlobLen(raw))
SigPart(op, raw) == CASE op = "unv" -> raw
                      [] op = "sign" -> Drop(raw, 5)
                      [] op = "att" -> IF BlobData(raw) = "?" THEN "?" ELSE Drop(raw, 9 + BlobLen(raw))
HeadOk(op, raw, kid) == op = "unv" \/ (BLen(raw) >= 5 /\ Take(raw, 5) = Version \o kid)
RECURSIVE LTrim(_)
LTrim(h) == IF BLen(h) > 0 /\ Take(h, 1) = "00" THEN LTrim(Drop(h, 1)) ELSE h
Zeros(h) == h = RepB("00", BLen(h))
\* the same signature: RSA signatures are numbers of at most the modulus length,
\* DSA signatures may be followed by the zero padding of the Java implementation
SameSig(kt, honest, given) ==
  \/ honest = given
  \/ kt = "RSA_PRIV" /\ BLen(given) <= BLen(honest) /\ given # "" /\ LTrim(honest) = LTrim(given)
  \/ kt = "DSA_PRIV" /\ IsPrefixB(honest, given) /\ Zeros(Drop(given, BLen(honest)))
Positive0(a) == a.res = "ok" /\ a.val \notin {"FALSE", "NONE"}

Backing(s, a, exact) ==
  LET data == IF a.op = "att" THEN BlobData(a.raw) ELSE a.data
  IN  {i \in DOMAIN s.signed :
         LET h == s.signed[i]
         IN  /\ h.kid \in s.kids
             /\ HeadOk(a.op, a.raw, h.kid)
             /\ SameSig(h.kt, h.sig, SigPart(a.op, a.raw))
             /\ IF exact
                THEN h.op = a.op /\ h.data = data /\ (a.op = "att" => h.nonce = a.nonce)
                ELSE data # "?" /\ Signed(h.op, h.data, h.nonce) = Signed(a.op, data, a.nonce)}
VerClauses(s, a) ==
  IF ~Positive0(a) THEN {}
  ELSE     If(Backing(s, a, TRUE) # {} \/ Backing(s, a, FALSE) # {}, "C06", "something that was not signed was accepted")
      \cup If(a.op = "att" => a.val = BlobData(a.raw), "C06", "attached verification returned other data than the blob's")
\* accepted although another (operation, data, nonce) was signed: the known ambiguity
KnownOf(s, a) ==
  IF Positive0(a) /\ Backing(s, a, TRUE) = {} /\ Backing(s, a, FALSE) # {}
  THEN {s.signed[CHOOSE i \in Backing(s, a, FALSE) : TRUE].op \o "-as-" \o a.op} ELSE {}

(* ------------------------------ totality --------------------------------- *)
Total(a) == If(a.res = "ok" \/ a.kz, "C17", "malformed input ended in " \o a.err)
          \cup If((a.res = "ok" /\ a.val # "") => SubSeq(a.val, 1, 1) # "?", "C17", "malformed input gave a value of the wrong kind")
\* honest outputs opened again with the same object
Again(s, a) == If(a.again => a.res = "ok" /\ a.val = a.want, "C17", "after malformed input an honest output is not opened any more")

Attempt(s, a) == Total(a) \cup Again(s, a)
                  \cup (CASE a.kind = "dec" -> DecClauses(s, a)
                          [] a.kind = "ver" -> VerClauses(s, a)
                          \* long data and nonces: a.again marks the honest one, all others are altered
                          [] a.kind = "big" -> If(a.again \/ ~Positive0(a), "C06", "something that was not signed was accepted")
                          [] OTHER -> {})
Fails(s, e) == IF e.ev = "try" THEN UNION {Attempt(s, e.list[i]) : i \in DOMAIN e.list} ELSE {}
Knowns(s, e) == IF e.ev = "try" /\ Prop = "C06"
                THEN UNION {KnownOf(s, e.list[i]) : i \in {j \in DOMAIN e.list : e.list[j].kind = "ver"}} ELSE {}
Advance(s, e) ==
  CASE e.ev = "reset" -> [kids |-> Range(e.kids), sealed |-> EmptyFun, signed |-> EmptyFun]
    [] e.ev = "sealed" -> [s EXCEPT !.sealed = (e.id :> [kid |-> e.kid, raw |-> e.raw, pt |-> e.pt]) @@ @]
    [] e.ev = "signed" -> [s EXCEPT !.signed = (e.id :> [op |-> e.op, kid |-> e.kid, kt |-> e.kt, data |-> e.data,
                                                       nonce |-> e.nonce, sig |-> e.sig]) @@ @]
    [] OTHER -> s
Init == l = 1 /\ bad = <<>> /\ known = {} /\ st = [kids |-> {}, sealed |-> EmptyFun, signed |-> EmptyFun]
Next ==
  /\ l <= Len(Trace)
  /\ LET f == {x \in Fails(st, Trace[l]) : x[1] = Prop}
     IN  bad' = IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, (CHOOSE x \in f : TRUE)[2]>>)
  /\ known' = known \cup Knowns(st, Trace[l])
  /\ st' = Advance(st, Trace[l])
  /\ l' = l + 1
  /\ l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad', known |-> known'])>>)
Spec == Init /\ [][Next]_<<l, st, bad, known>>
=============================================================================
