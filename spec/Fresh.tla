------------------------------- MODULE Fresh -------------------------------
(* Use of random material (C18).  The operating system's source is a stream  *)
(* of bytes; every operation takes the material it needs from bytes of that  *)
(* stream which nothing has taken before.                                    *)
EXTENDS Base

\* kinds of random material and their length in bytes (0: see AtLeast)
Length(kind, size) ==
  CASE kind = "iv" -> 16
    [] kind = "seed" -> 20            \* OAEP
    [] kind = "nonce" -> 16           \* session nonce
    [] kind = "aes" -> size \div 8
    [] kind = "hmac" -> 32
    [] kind = "k" -> 20               \* DSA
    [] kind = "gen" -> size \div 8    \* input of the RSA and DSA key generators
Kinds == {"iv", "seed", "nonce", "aes", "hmac", "k", "gen"}

(* what each operation needs; wrap is the kind of key that encrypts, sign    *)
(* the kind that signs                                                       *)
WrapNeed(w) == IF w = "rsa" THEN {"seed"} ELSE {"iv"}
Need(op, w, s) ==
  CASE op = "enc" -> WrapNeed(w)
    [] op = "stream" -> {"iv"}
    [] op = "sign" -> IF s = "dsa" THEN {"k"} ELSE {}
    [] op = "open" -> {"aes", "hmac"} \cup WrapNeed(w)
    [] op = "opensigned" -> {"aes", "hmac", "nonce"} \cup WrapNeed(w)
    [] op = "send" -> {"iv"}
    [] op = "sendsigned" -> {"iv"} \cup (IF s = "dsa" THEN {"k"} ELSE {})
    [] op = "genaes" -> {"aes", "hmac"}
    [] op = "genhmac" -> {"hmac"}
    [] op = "genpair" -> {"gen"}
    [] OTHER -> {}

\* an interval of the stream: [at, len]
Bytes2(i) == i.at .. (i.at + i.len - 1)
Disjoint(i, j) == i.at + i.len <= j.at \/ j.at + j.len <= i.at
=============================================================================
