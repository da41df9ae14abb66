------------------------------- MODULE Base64 -------------------------------
(* Web-safe Base64 without padding, defined on hexadecimal byte strings: six *)
(* nibbles are three bytes are four characters.                              *)
EXTENDS Base

Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
B64Char(v) == SubSeq(Alphabet, v + 1, v + 1)
B64Chars == {B64Char(v) : v \in 0..63}
B64Val == [c \in B64Chars |-> CHOOSE v \in 0..63 : B64Char(v) = c]
Nib(h, i) == HexVal[SubSeq(h, i, i)]

\* three nibbles <-> two characters, tabulated
Hex3(v) == HexDigits[(v \div 256) + 1] \o HexDigits[((v \div 16) % 16) + 1] \o HexDigits[(v % 16) + 1]
Enc3 == [t \in {Hex3(v) : v \in 0..4095} |->
           LET v == 256 * Nib(t, 1) + 16 * Nib(t, 2) + Nib(t, 3) IN B64Char(v \div 64) \o B64Char(v % 64)]
Dec2 == [c \in {B64Char(v \div 64) \o B64Char(v % 64) : v \in 0..4095} |->
           Hex3(64 * B64Val[SubSeq(c, 1, 1)] + B64Val[SubSeq(c, 2, 2)])]

\* concatenation over 1..n by halving
RECURSIVE Cat(_, _, _)
Cat(f, a, b) == IF a > b THEN "" ELSE IF a = b THEN f[a]
                ELSE LET m == (a + b) \div 2 IN Cat(f, a, m) \o Cat(f, m + 1, b)

EncLen(n) == (8 * n + 5) \div 6                 \* characters for n bytes
DecLen(c) == (6 * c) \div 8                     \* bytes of c characters
Enc(h) == LET n == BLen(h)
              x == h \o CASE n % 3 = 0 -> "" [] n % 3 = 1 -> "0000" [] OTHER -> "00"
              part == [i \in 1..(Len(x) \div 3) |-> Enc3[SubSeq(x, 3 * i - 2, 3 * i)]]
          IN  SubSeq(Cat(part, 1, Len(x) \div 3), 1, EncLen(n))
\* decoding of characters of the alphabet (white space already removed)
LegalLen(s) == Len(s) % 4 # 1
Dec(s) == LET c == Len(s)
              x == s \o CASE c % 4 = 0 -> "" [] c % 4 = 2 -> "AA" [] OTHER -> "A"
              part == [i \in 1..(Len(x) \div 2) |-> Dec2[SubSeq(x, 2 * i - 1, 2 * i)]]
          IN  SubSeq(Cat(part, 1, Len(x) \div 2), 1, 2 * DecLen(c))
White == {" ", "\n", "\t", "\r", "\f"}
Strip(s) == LET part == [i \in 1..Len(s) |-> IF SubSeq(s, i, i) \in White THEN "" ELSE SubSeq(s, i, i)]
            IN  Cat(part, 1, Len(s))
InAlphabet(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in B64Chars
=============================================================================
