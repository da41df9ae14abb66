------------------------------ MODULE DerTrace ------------------------------
(* Validation of recorded encodings and decodings against Der.  Decides C20. *)
EXTENDS Der, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {} ELSE {clause}
Ok(e) == e.res = "ok"

ExportC(e) == If(Ok(e), "a key could not be exported: " \o e.form)
       \cup If(Ok(e) => e.text = IF e.form = "sig" THEN Encode(e.form, e.k) ELSE Enc(Encode(e.form, e.k)),
               "an exported key is not its published encoding: " \o e.form)
ParseC(e) ==
  LET right == IF e.how = "" THEN Encode(e.form, e.k) ELSE Wrong(e.form, e.how, e.k)
      fed == IF e.sp THEN Strip(e.text) ELSE e.text
      want == IF e.b64 THEN Enc(right) ELSE right \o RepB("00", e.pad)
  IN  If(fed = want, "input outside the format (error of the machinery)")
      \cup IF e.how = ""
           THEN If(Ok(e), "a well-formed encoding is refused: " \o e.form)
                \cup If(Ok(e) => e.got = e.k, "an encoding is read as another key: " \o e.form)
           ELSE If(~Ok(e) /\ e.kz, "an encoding of something else is not refused with a Keyczar error: " \o e.how)
\* a signature encoding is read only if it is the encoding of what is read, up to trailing zero bytes
SigC(e) == If(Ok(e) \/ e.kz, "malformed signature encoding: neither read nor refused with a Keyczar error")
      \cup If(Ok(e) => LET s == DSeq(Tlv("02", e.got.r) \o Tlv("02", e.got.s))
                       IN  IsPrefixB(s, e.text) /\ Drop(e.text, BLen(s)) = RepB("00", BLen(e.text) - BLen(s)),
              "a signature encoding was read although it is not canonical")

Fails(e) ==
  CASE e.ev = "export" -> ExportC(e)
    [] e.ev = "parse" -> ParseC(e)
    [] e.ev = "sig" -> SigC(e)
    [] e.ev = "tobytes" -> If(Ok(e) /\ e.got = NumBytes(e.num), "number to bytes is wrong")
    [] e.ev = "tonum" -> If(Ok(e) /\ e.got = BytesNum(e.h), "bytes to number is wrong")
    [] e.ev = "int4" -> If(Ok(e) /\ e.got = LeftPad(NumBytes(e.num), 4), "four-byte integer is wrong")
    [] e.ev = "pack" -> If(Ok(e) /\ e.got = PackMany(e.arrays), "packed arrays are wrong")
    [] e.ev = "pack1" -> If(Ok(e) /\ e.got = Pack(e.h), "packed array is wrong")
    [] e.ev = "unpack" -> LET u == UnpackMany(e.h)
                          IN  If(u[1] = "ok" => Ok(e) /\ e.got = u[2], "packed arrays are not read back")
                              \cup If(u[1] = "err" => ~Ok(e) /\ e.kz, "damaged packed arrays are not refused with a Keyczar error")
                              \cup If(u[1] = "any" => Ok(e) \/ e.kz, "damaged packed arrays end in another error")
    [] e.ev = "bits" -> If(Ok(e) /\ e.got = Bits(e.h), "bits of bytes are wrong")
    \* the bits of a number: no leading zeros, "0" for zero
    [] e.ev = "intbits" -> If(Ok(e) /\ PadBits(e.got) = Bits(IF e.num = "" THEN "00" ELSE e.num)
                              /\ (e.got = "0" \/ (e.got # "" /\ SubSeq(e.got, 1, 1) = "1") \/ e.num = ""), "bits of a number are wrong")
    [] e.ev = "unbits" -> If(Ok(e) /\ Bits(e.got) = PadBits(e.bits), "bytes of bits are wrong")
    [] e.ev = "xor" -> If(Ok(e) /\ e.got = XorH(e.a, e.b), "exclusive or is wrong")
    [] e.ev = "trim" -> If(Ok(e) /\ e.got = BytesNum(e.h), "trimming leading zero bytes is wrong")
    [] e.ev = "padb" -> If(Ok(e) /\ e.got = RepB("00", e.n) \o e.h, "padding with zero bytes is wrong")
    [] OTHER -> {}

Init == l = 1 /\ bad = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ LET f == Fails(Trace[l])
     IN  bad' = IF f = {} \/ Len(bad) >= 8 THEN bad ELSE Append(bad, <<l, CHOOSE x \in f : TRUE>>)
  /\ l' = l + 1
  /\ l = Len(Trace) => PrintT(<<"VERDICT", ToJson([bad |-> bad', known |-> <<>>])>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
