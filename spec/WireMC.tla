------------------------------- MODULE WireMC -------------------------------
(* Exhaustive small-scope checks of the format definitions themselves: every *)
(* encoding used by Wire is unambiguous, so "has the published layout" is a  *)
(* meaningful judgement.                                                     *)
EXTENDS Wire
CONSTANT Wide          \* TRUE: larger domains
VARIABLE x

B == {"00", "01", "7f", "80", "ff"} \cup IF Wide THEN {"02", "10", "30"} ELSE {}
Str(n) == LET RECURSIVE S(_)
              S(k) == IF k = 0 THEN {""} ELSE LET p == S(k - 1) IN p \cup {a \o c : a \in p, c \in B}
          IN  S(n)
Small == Str(2)
Byte == {ByteHex(v) : v \in 0..255}

\* Base64: inverse, canonical length, alphabet; all one- and two-byte strings
B64Laws == \A a \in Byte \cup {""}, c \in (IF Wide THEN Byte ELSE B) \cup {""} :
             LET h == a \o c IN /\ Dec(Enc(h)) = h
                                /\ Len(Enc(h)) = EncLen(BLen(h)) /\ LegalLen(Enc(h)) /\ InAlphabet(Enc(h))
                                /\ Strip(" " \o Enc(h) \o "\n") = Enc(h)
\* PKCS5 padding never leaves the data ambiguous
PadLaws == \A h \in Small : BLen(Pad(h)) % 16 = 0 /\ BLen(Pad(h)) > BLen(h)
                             /\ ButLast(Pad(h), ByteVal(LastB(Pad(h), 1))) = h
PadInjective == \A h, g \in Small : Pad(h) = Pad(g) => h = g
\* packed pairs determine their parts
PackInjective == \A a, c, d, e \in {h \in Small : BLen(h) <= 1} :
                    SessionPlain(a, c) = SessionPlain(d, e) => a = d /\ c = e
\* OAEP blocks determine the data, also with leading 00 and 01 bytes
OaepInjective == \A h, g \in Small : OaepBlock(h, 48) = OaepBlock(g, 48) => h = g
\* DER pairs determine r and s
Pos == {v \in Str(3) : IsDerPos(v)}
DerLaws == \A r, s \in Pos : DerR(DerPair(r, s)) = r /\ DerS(DerPair(r, s)) = s
\* versioned and attached messages: a fixed nonce length makes them unambiguous
SignedInjective == \A d, e \in Small, u, v \in {h \in Small : BLen(h) = 1} :
                      Signed("att", d, u) = Signed("att", e, v) => d = e /\ u = v
\* ... but in general they are not: the known ambiguity of the format (C06)
Ambiguous == \E d, e \in {"", "00000004"}, u, v \in {"", "00000000"} :
                <<d, u>> # <<e, v>> /\ Signed("att", d, u) = Signed("att", e, v)
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Inv == B64Laws /\ PadLaws /\ PadInjective /\ PackInjective /\ OaepInjective /\ DerLaws /\ SignedInjective /\ Ambiguous
=============================================================================
