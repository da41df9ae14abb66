-------------------------------- MODULE Der ---------------------------------
(* The encodings of keys and numbers that leave or enter the library, at     *)
(* byte level: DER integers and sequences, PKCS#8 private keys, X.509        *)
(* public key infos, DSA signatures, packed byte arrays and plain numbers.   *)
(* Numbers are their minimal hexadecimal magnitude ("00" for zero).          *)
EXTENDS Base64

\* ---- numbers ----
IsMin(m) == BLen(m) >= 1 /\ (BLen(m) > 1 => Take(m, 1) # "00")
RECURSIVE Trim(_)
Trim(h) == IF BLen(h) > 1 /\ Take(h, 1) = "00" THEN Trim(Drop(h, 1)) ELSE h
NumBytes(m) == IF m = "00" THEN "" ELSE m          \* big-endian bytes of a number; zero has none
BytesNum(h) == IF h = "" THEN "00" ELSE Trim(h)    \* number of big-endian bytes

\* ---- DER ----
LenB(n) == CASE n < 128 -> ByteHex(n)
             [] n < 256 -> "81" \o ByteHex(n)
             [] n < 65536 -> "82" \o ByteHex(n \div 256) \o ByteHex(n % 256)
             [] OTHER -> "83" \o ByteHex(n \div 65536) \o ByteHex((n \div 256) % 256) \o ByteHex(n % 256)
Tlv(tag, c) == tag \o LenB(BLen(c)) \o c
DInt(m) == Tlv("02", IF ByteVal(Take(m, 1)) >= 128 THEN "00" \o m ELSE m)
RECURSIVE DInts(_)
DInts(ms) == IF ms = <<>> THEN "" ELSE DInt(Head(ms)) \o DInts(Tail(ms))
DSeq(c) == Tlv("30", c)
DOct(c) == Tlv("04", c)
DBits(c) == Tlv("03", "00" \o c)
DNull == "0500"
RsaOid == "06092a864886f70d010101"      \* 1.2.840.113549.1.1.1
DsaOid == "06072a8648ce380401"          \* 1.2.840.10040.4.1

RsaFields == <<"n", "e", "d", "p", "q", "dp", "dq", "invq">>
DsaFields == <<"p", "q", "g">>
Vals(k, fs) == [i \in DOMAIN fs |-> k[fs[i]]]

Pkcs8Of(ver, alg, key) == DSeq(DInt(ver) \o alg \o DOct(key))
X509Of(alg, key) == DSeq(alg \o DBits(key))
RsaAlg == DSeq(RsaOid \o DNull)
DsaAlg(k) == DSeq(DsaOid \o DSeq(DInts(Vals(k, DsaFields))))

\* the published encodings
Encode(form, k) ==
  CASE form = "rsa8" -> Pkcs8Of("00", RsaAlg, DSeq(DInt("00") \o DInts(Vals(k, RsaFields))))
    [] form = "dsa8" -> Pkcs8Of("00", DsaAlg(k), DInt(k.x))
    [] form = "rsax" -> X509Of(RsaAlg, DSeq(DInt(k.n) \o DInt(k.e)))
    [] form = "dsax" -> X509Of(DsaAlg(k), DInt(k.y))
    [] form = "sig"  -> DSeq(DInt(k.r) \o DInt(k.s))
FieldsOf(form) ==
  CASE form = "rsa8" -> Range(RsaFields)
    [] form = "dsa8" -> Range(DsaFields) \cup {"x"}
    [] form = "rsax" -> {"n", "e"}
    [] form = "dsax" -> Range(DsaFields) \cup {"y"}
    [] form = "sig"  -> {"r", "s"}

\* ---- decoding, as the inverse ----
\* one DER element at the start of h: [tag, val, rest], or tag "" if there is none
None == [tag |-> "", val |-> "", rest |-> ""]
Elem(h) ==
  IF BLen(h) < 2 THEN None ELSE
  LET t == Take(h, 1)
      b == ByteVal(Bytes(h, 2, 2))
      n == IF b < 128 THEN 0 ELSE b - 128
  IN  IF n > 3 \/ b = 128 \/ BLen(h) < 2 + n THEN None ELSE
      LET ln == CASE n = 0 -> b
                  [] n = 1 -> ByteVal(Bytes(h, 3, 3))
                  [] n = 2 -> 256 * ByteVal(Bytes(h, 3, 3)) + ByteVal(Bytes(h, 4, 4))
                  [] OTHER -> 65536 * ByteVal(Bytes(h, 3, 3)) + 256 * ByteVal(Bytes(h, 4, 4)) + ByteVal(Bytes(h, 5, 5))
      IN  IF BLen(h) < 2 + n + ln THEN None
          ELSE [tag |-> t, val |-> Bytes(h, 3 + n, 2 + n + ln), rest |-> Drop(h, 2 + n + ln)]
RECURSIVE Elems(_)
Elems(h) == IF h = "" THEN <<>> ELSE LET e == Elem(h) IN <<e>> \o (IF e.tag = "" THEN <<>> ELSE Elems(e.rest))
Num(e) == Trim(e.val)

\* encodings of something else than a version-0 RSA or DSA key
Wrong(form, how, k) ==
  LET key == IF form = "rsa8" THEN DSeq(DInt("00") \o DInts(Vals(k, RsaFields))) ELSE DInt(k.x)
      alg == IF form = "rsa8" THEN RsaAlg ELSE DsaAlg(k)
      oth == DSeq("06072a8648ce3d0201" \o DNull)       \* an elliptic curve key
  IN  CASE how = "version" -> Pkcs8Of("01", alg, key)
        [] how = "version2" -> Pkcs8Of("0100", alg, key)
        [] how = "keyversion" -> Pkcs8Of("00", alg, DSeq(DInt("01") \o DInts(Vals(k, RsaFields))))
        [] how = "oid" -> Pkcs8Of("00", oth, key)
        [] how = "fields2" -> DSeq(DInt("00") \o alg)
        [] how = "fields4" -> DSeq(DInt("00") \o alg \o DOct(key) \o DNull)
        [] how = "xoid" -> X509Of(oth, key)
        [] how = "xfields1" -> DSeq(alg)
        [] how = "xfields3" -> DSeq(alg \o DBits(key) \o DNull)
        \* the same numbers in an inner sequence that lacks the last one or has one more
        [] how = "less" -> IF form = "rsa8" THEN Pkcs8Of("00", alg, DSeq(DInt("00") \o DInts(SubSeq(Vals(k, RsaFields), 1, 7))))
                           ELSE Pkcs8Of("00", DSeq(DsaOid \o DSeq(DInt(k.p) \o DInt(k.q))), key)
        [] how = "more" -> IF form = "rsa8" THEN Pkcs8Of("00", alg, DSeq(DInt("00") \o DInts(Vals(k, RsaFields)) \o DInt("01")))
                           ELSE Pkcs8Of("00", DSeq(DsaOid \o DSeq(DInts(Vals(k, DsaFields)) \o DInt("01"))), key)
        [] how = "alg1" -> Pkcs8Of("00", DSeq(IF form = "rsa8" THEN RsaOid ELSE DsaOid), key)
        [] how = "alg3" -> Pkcs8Of("00", DSeq(Elem(alg).val \o DNull), key)
        [] how = "xless" -> IF form = "rsa8" THEN X509Of(alg, DSeq(DInt(k.n)))
                            ELSE X509Of(DSeq(DsaOid \o DSeq(DInt(k.p) \o DInt(k.q))), DInt(k.y))
        [] how = "xmore" -> IF form = "rsa8" THEN X509Of(alg, DSeq(DInt(k.n) \o DInt(k.e) \o DInt("01")))
                            ELSE X509Of(DSeq(DsaOid \o DSeq(DInts(Vals(k, DsaFields)) \o DInt("01"))), DInt(k.y))
        [] how = "xalg1" -> X509Of(DSeq(IF form = "rsa8" THEN RsaOid ELSE DsaOid), key)
        [] how = "xalg3" -> X509Of(DSeq(Elem(alg).val \o DNull), key)

\* ---- packed arrays ----
Pack(a) == Int4(BLen(a)) \o a
RECURSIVE PackAll(_)
PackAll(as) == IF as = <<>> THEN "" ELSE Pack(Head(as)) \o PackAll(Tail(as))
PackMany(as) == Int4(Len(as)) \o PackAll(as)
\* <<"ok", arrays>> or <<"err", <<>>>>; the leading count is not looked at
RECURSIVE UnpackAll(_)
UnpackAll(h) ==
  IF h = "" THEN <<"ok", <<>>>>
  ELSE IF BLen(h) < 4 \/ Take(h, 1) # "00" THEN <<"err", <<>>>>     \* (no array here reaches 16 MiB)
  ELSE LET ln == 65536 * ByteVal(Bytes(h, 2, 2)) + 256 * ByteVal(Bytes(h, 3, 3)) + ByteVal(Bytes(h, 4, 4))
       IN  IF BLen(h) < 4 + ln THEN <<"err", <<>>>>
           ELSE LET t == UnpackAll(Drop(h, 4 + ln))
                IN  IF t[1] = "err" THEN t ELSE <<"ok", <<IF ln = 0 THEN "" ELSE Bytes(h, 5, 4 + ln)>> \o t[2]>>
UnpackMany(h) == IF BLen(h) < 4 THEN <<"any", <<>>>> ELSE UnpackAll(Drop(h, 4))

\* ---- bits, exclusive or ----
Nib4 == <<"0000", "0001", "0010", "0011", "0100", "0101", "0110", "0111",
          "1000", "1001", "1010", "1011", "1100", "1101", "1110", "1111">>
Bits(h) == Cat([i \in 1..Len(h) |-> Nib4[Nib(h, i) + 1]], 1, Len(h))
Zeros(n) == RepB("0", n)
PadBits(s) == Zeros((8 - (Len(s) % 8)) % 8) \o s
RECURSIVE XorN(_, _)
XorN(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE 2 * XorN(a \div 2, b \div 2) + ((a + b) % 2)
XorTab == [a \in 0..15 |-> [b \in 0..15 |-> HexDigits[XorN(a, b) + 1]]]
LeftPad(h, n) == IF BLen(h) >= n THEN h ELSE RepB("00", n - BLen(h)) \o h
XorH(a, b) == LET n == MaxOf({BLen(a), BLen(b)})
                  x == LeftPad(a, n)
                  y == LeftPad(b, n)
              IN  Cat([i \in 1..(2 * n) |-> XorTab[Nib(x, i)][Nib(y, i)]], 1, 2 * n)
=============================================================================
