------------------------------- MODULE DerMC --------------------------------
(* Exhaustive small-scope checks of the encodings: every encoding determines *)
(* what it encodes.  Also prints encodings for the code to parse.            *)
EXTENDS Der, Json
CONSTANT Gen, Lens
VARIABLE x
\* numbers around every boundary of sign byte and length bytes
M == {"00", "01", "7f", "80", "ff", "0100", "7fff", "8000", "ffff"}
Big(n) == {"01" \o RepB("00", n - 1), "7f" \o RepB("ff", n - 1), "80" \o RepB("00", n - 1), RepB("ff", n)}
N == M \cup UNION {Big(n) : n \in Lens}

IntLaws == \A m \in N : /\ IsMin(m)
                        /\ Elem(DInt(m)).tag = "02" /\ Num(Elem(DInt(m))) = m /\ Elem(DInt(m)).rest = ""
                        /\ ByteVal(Take(Elem(DInt(m)).val, 1)) < 128
                        /\ BytesNum(NumBytes(m)) = m
SigLaws == \A r, s \in N : LET e == Elem(Encode("sig", [r |-> r, s |-> s]))
                               i == Elems(e.val)
                           IN  e.tag = "30" /\ e.rest = "" /\ Len(i) = 2 /\ Num(i[1]) = r /\ Num(i[2]) = s
\* a key parses back to itself, whatever its numbers
K8(a, b) == [n |-> a, e |-> b, d |-> a, p |-> b, q |-> a, dp |-> b, dq |-> a, invq |-> b, x |-> a, g |-> b, y |-> b]
Parse8(h) ==
  LET o == Elems(Elem(h).val)
      alg == Elems(o[2].val)
  IN  IF "06" \o LenB(BLen(alg[1].val)) \o alg[1].val = RsaOid
      THEN LET i == Elems(Elem(o[3].val).val) IN [f \in Range(RsaFields) |-> Num(i[1 + CHOOSE j \in 1..8 : RsaFields[j] = f])]
      ELSE LET i == Elems(alg[2].val) IN [f \in {"p", "q", "g", "x"} |-> IF f = "x" THEN Num(Elem(o[3].val))
                                                                          ELSE Num(i[CHOOSE j \in 1..3 : DsaFields[j] = f])]
ParseX(h) ==
  LET o == Elems(Elem(h).val)
      alg == Elems(o[1].val)
      bits == Drop(o[2].val, 1)
  IN  IF "06" \o LenB(BLen(alg[1].val)) \o alg[1].val = RsaOid
      THEN LET i == Elems(Elem(bits).val) IN [f \in {"n", "e"} |-> Num(i[IF f = "n" THEN 1 ELSE 2])]
      ELSE LET i == Elems(alg[2].val) IN [f \in {"p", "q", "g", "y"} |-> IF f = "y" THEN Num(Elem(bits))
                                                                          ELSE Num(i[CHOOSE j \in 1..3 : DsaFields[j] = f])]
KeyLaws == \A a, b \in N : LET k == K8(a, b) IN
             /\ Parse8(Encode("rsa8", k)) = Restrict(k, FieldsOf("rsa8"))
             /\ Parse8(Encode("dsa8", k)) = Restrict(k, FieldsOf("dsa8"))
             /\ ParseX(Encode("rsax", k)) = Restrict(k, FieldsOf("rsax"))
             /\ ParseX(Encode("dsax", k)) = Restrict(k, FieldsOf("dsax"))
S == {"", "00", "01", "0004", "00000000", "00000001ff"}
PackLaws == /\ UnpackMany(PackMany(<<>>)) = <<"ok", <<>>>>
            /\ \A a, b, c \in S : UnpackMany(PackMany(<<a, b, c>>)) = <<"ok", <<a, b, c>>>>
            /\ \A a, b \in S : \A n \in 4..(BLen(PackMany(<<a, b>>)) - 1) :
                 LET u == UnpackMany(Take(PackMany(<<a, b>>), n)) IN u[1] = "err" \/ u[2] \in {<<>>, <<a>>}
            /\ \A a, b \in S : Len(Bits(a)) = 8 * BLen(a) /\ (Bits(a) = Bits(b) => a = b)
                                /\ XorH(XorH(a, b), b) = LeftPad(a, BLen(b)) /\ XorH(a, b) = XorH(b, a)
Inv == IntLaws /\ SigLaws /\ KeyLaws /\ PackLaws

Out == \A a, b \in N : \A f \in {"rsa8", "dsa8", "rsax", "dsax"} :
         PrintT(<<"ENC", ToJson([form |-> f, k |-> Restrict(K8(a, b), FieldsOf(f)), h |-> Encode(f, K8(a, b))])>>)
Bad == \A b \in {"7f", "80", RepB("ff", 130)} :
         \A w \in ({"rsa8", "dsa8"} \X {"version", "version2", "oid", "fields2", "fields4", "xoid", "xfields1", "xfields3",
                                        "less", "more", "alg1", "alg3", "xless", "xmore", "xalg1", "xalg3"}) \cup {<<"rsa8", "keyversion">>} :
         PrintT(<<"BAD", ToJson([form |-> w[1], how |-> w[2], k |-> K8(b, "03"), h |-> Wrong(w[1], w[2], K8(b, "03"))])>>)
Init == x = 0 /\ (Gen => Out /\ Bad)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
