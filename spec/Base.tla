-------------------------------- MODULE Base --------------------------------
(* Helpers shared by all specifications.                                    *)
(* Byte strings are represented as lower-case hexadecimal strings (TLC      *)
(* implements Len, SubSeq and \o on strings), so that byte-level formats    *)
(* can be written down exactly and compared cheaply.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Restrict(f, S) == [x \in S \cap DOMAIN f |-> f[x]]
EmptyFun == [x \in {} |-> x]

(* ---- hexadecimal byte strings ---- *)
BLen(h) == Len(h) \div 2
Take(h, n) == SubSeq(h, 1, 2 * n)                 \* first n bytes
Drop(h, n) == SubSeq(h, 2 * n + 1, Len(h))        \* all but the first n bytes
Bytes(h, i, j) == SubSeq(h, 2 * i - 1, 2 * j)     \* bytes i..j (1-based)
LastB(h, n) == SubSeq(h, Len(h) - 2 * n + 1, Len(h))
ButLast(h, n) == SubSeq(h, 1, Len(h) - 2 * n)
IsPrefixB(p, h) == Len(p) <= Len(h) /\ SubSeq(h, 1, Len(p)) = p

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal == [c \in Range(HexDigits) |-> CHOOSE i \in 0..15 : HexDigits[i + 1] = c]
ByteVal(b) == 16 * HexVal[SubSeq(b, 1, 1)] + HexVal[SubSeq(b, 2, 2)]
ByteHex(n) == HexDigits[(n \div 16) + 1] \o HexDigits[(n % 16) + 1]
\* four-byte big-endian integer of a length that fits TLC's 32-bit integers
Int4(n) == ByteHex(n \div 16777216) \o ByteHex((n \div 65536) % 256)
             \o ByteHex((n \div 256) % 256) \o ByteHex(n % 256)
RECURSIVE RepB(_, _)
RepB(b, n) == IF n = 0 THEN "" ELSE b \o RepB(b, n - 1)
=============================================================================
