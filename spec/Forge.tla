-------------------------------- MODULE Forge -------------------------------
(* The adversary of C05, C06 and C17: everything that can be assembled from  *)
(* parts of honest outputs, altered parts and parts made under keys of the   *)
(* adversary, and what opening it must give.                                 *)
(*                                                                           *)
(* Ciphertexts are sequences of tokens; a MAC token carries the key and the  *)
(* token sequence it authenticates (ideal MAC).  Signatures carry the key    *)
(* and the signed bytes of Wire!Signed (ideal signature).                    *)
EXTENDS Wire, Json

(* --------------------------- ciphertexts (C05) -------------------------- *)
\* four honest records: 1 and 2 under key a, 3 under key b (both in the set), 4 under key c
Recs == 1..4
KeyOf(r) == CASE r \in {1, 2} -> "a" [] r = 3 -> "b" [] r = 4 -> "c"
SetKeys == {"a", "b"}
Fields == <<"ver", "kid", "iv", "c1", "c2", "mac">>
\* tokens: kind f, key k, number r, authenticated tokens m
Tok(f, k, r, m) == [f |-> f, k |-> k, r |-> r, m |-> m]
Atom(i, r) == CASE i = 1 -> Tok("ver", "", 0, <<>>)
                [] i = 2 -> Tok("kid", KeyOf(r), 0, <<>>)
                [] OTHER -> Tok("blk", Fields[i], r, <<>>)        \* iv, c1, c2: all 16 bytes
Front(r) == [i \in 1..5 |-> Atom(i, r)]
Mac(key, front) == Tok("mac", key, 0, front)
Honest(r) == Append(Front(r), Mac(KeyOf(r), Front(r)))

\* a recipe says, for each of the six parts of record 1, what stands there
Choices == {"own", "r2", "r3", "r4", "flip", "drop", "dup"}
Alt(f) == Tok(f, "altered", 9, <<>>)
Part(c, i) ==
  LET tk(r) == IF i < 6 THEN Atom(i, r) ELSE Mac(KeyOf(r), Front(r))
  IN  CASE c = "own" -> <<tk(1)>> [] c = "r2" -> <<tk(2)>> [] c = "r3" -> <<tk(3)>> [] c = "r4" -> <<tk(4)>>
        [] c = "flip" -> <<Alt(tk(1).f)>> [] c = "drop" -> <<>> [] c = "dup" -> <<tk(1), tk(1)>>
Assemble(rc) == Part(rc[1], 1) \o Part(rc[2], 2) \o Part(rc[3], 3) \o Part(rc[4], 4) \o Part(rc[5], 5) \o Part(rc[6], 6)

Open(t) ==
  IF Len(t) < 3 THEN "short"
  ELSE IF t[1] # Tok("ver", "", 0, <<>>) THEN "badversion"
  ELSE IF t[2].f # "kid" \/ t[2].k \notin SetKeys THEN "nokey"
  ELSE IF t[Len(t)] # Mac(t[2].k, SubSeq(t, 1, Len(t) - 1)) THEN "badsig"
  ELSE "ok"
\* C05 on the design
OnlyHonest(rc) == Open(Assemble(rc)) = "ok" => \E r \in Recs : KeyOf(r) \in SetKeys /\ Assemble(rc) = Honest(r)

(* ---------------------------- signatures (C06) -------------------------- *)
SigKeys == {"a", "b"}
Datas == {"", "61", "6162", "616200", "00000000", "00000004", "0000000161"}
Nonces == {"", "61", "00000000"}
Triples == {[op |-> o, data |-> d, nonce |-> ""] : o \in {"sign", "unv"}, d \in Datas}
      \cup {[op |-> "att", data |-> d, nonce |-> x] : d \in Datas, x \in Nonces}
\* the signature made for triple s under key k, presented for triple t under key identifier k2
Accepts(k, s, k2, t) == /\ t.op # "unv" => k2 = k
                        /\ Signed(s.op, s.data, s.nonce) = Signed(t.op, t.data, t.nonce)
\* the format signs data|len|nonce|00 without a length of the data: two different
\* triples with the same signed bytes cannot be told apart (known finding)
Ambiguous(s, t) == s # t /\ Signed(s.op, s.data, s.nonce) = Signed(t.op, t.data, t.nonce)
OnlySigned(k, s, k2, t) == Accepts(k, s, k2, t) => s = t \/ Ambiguous(s, t)
=============================================================================
