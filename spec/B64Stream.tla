----------------------------- MODULE B64Stream ------------------------------
(* Incremental Base64: encoder, decoder, stream writer and stream reader in   *)
(* the shape of the implementation, over byte positions 1..n and character    *)
(* positions 1..CharsOf(n); white space is character 0.                       *)
EXTENDS Integers, Sequences, FiniteSets
BSeg(a, z) == [i \in 1 .. (IF z < a THEN 0 ELSE z - a + 1) |-> a + i - 1]
BFirst(s, k) == SubSeq(s, 1, IF k > Len(s) THEN Len(s) ELSE k)
BSkip(s, k) == IF k >= Len(s) THEN <<>> ELSE SubSeq(s, k + 1, Len(s))
CharsOf(n) == (8 * n + 5) \div 6
BytesOf(c) == (6 * c) \div 8
Bad == -1
\* the code of one group: whole groups or a final partial one; a group whose
\* bytes are not consecutive from a group boundary has no honest characters
CodeGroup(g) == IF g[1] % 3 = 1 /\ g = BSeg(g[1], g[1] + Len(g) - 1)
                THEN BSeg(4 * (g[1] \div 3) + 1, 4 * (g[1] \div 3) + CharsOf(Len(g)))
                ELSE [i \in 1 .. CharsOf(Len(g)) |-> Bad]
PlainGroup(g) == IF g[1] % 4 = 1 /\ g = BSeg(g[1], g[1] + Len(g) - 1)
                 THEN BSeg(3 * (g[1] \div 4) + 1, 3 * (g[1] \div 4) + BytesOf(Len(g)))
                 ELSE [i \in 1 .. BytesOf(Len(g)) |-> Bad]
RECURSIVE OneEnc(_), OneDec(_), NoWhite(_)
OneEnc(s) == IF s = <<>> THEN <<>> ELSE CodeGroup(BFirst(s, 3)) \o OneEnc(BSkip(s, 3))
OneDec(s) == IF s = <<>> THEN <<>> ELSE PlainGroup(BFirst(s, 4)) \o OneDec(BSkip(s, 4))
NoWhite(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = 0 THEN <<>> ELSE <<Head(s)>>) \o NoWhite(Tail(s))
Possible(s) == Len(s) % 4 # 1

(* incremental coder: whole groups only unless final *)
EncStep(buf, data, final) ==
  LET all == buf \o data
      k == IF final THEN Len(all) ELSE 3 * (Len(all) \div 3)
  IN  [out |-> OneEnc(BFirst(all, k)), buf |-> BSkip(all, k)]
DecStep(buf, text, final) ==
  LET all == buf \o NoWhite(text)
      k == IF final THEN Len(all) ELSE 4 * (Len(all) \div 4)
      use == BFirst(all, k)
  IN  [ok |-> Possible(use), out |-> IF Possible(use) THEN OneDec(use) ELSE <<>>, buf |-> BSkip(all, k)]

(* stream reader: cb characters decoded and not returned; db decoder buffer   *)
RdNew == [pc |-> "idle", cb |-> <<>>, db |-> <<>>, size |-> 0, chars |-> 0, nd |-> "init", ret |-> <<>>, res |-> "no"]
Enough(r) == IF r.chars < 0 THEN (IF r.size < 0 THEN r.cb # <<>> ELSE Len(r.cb) >= r.size) ELSE Len(r.cb) >= r.chars
Give(r) ==
  LET k == IF r.chars < 0 THEN Len(r.cb) ELSE r.chars
      out == BFirst(r.cb, k)
      q == [r EXCEPT !.cb = BSkip(r.cb, k), !.pc = "idle", !.ret = out]
      fl == DecStep(r.db, <<>>, TRUE)
  IN IF out # <<>> THEN [q EXCEPT !.res = "data"]
     ELSE IF r.nd = "none" THEN [q EXCEPT !.res = "none"]
     ELSE IF r.chars = 0 \/ r.size = 0 THEN [q EXCEPT !.res = "nothing"]
     ELSE IF ~fl.ok THEN [q EXCEPT !.res = "error"]
     ELSE LET m == IF r.chars < 0 THEN Len(fl.out) ELSE r.chars
          IN [q EXCEPT !.db = <<>>, !.ret = BFirst(fl.out, m), !.cb = BSkip(fl.out, m), !.res = IF fl.out = <<>> THEN "end" ELSE "data"]
Check(r) == IF Enough(r) THEN Give(r) ELSE [r EXCEPT !.pc = "wait"]
Ask(r, size, chars) == Check([r EXCEPT !.size = size, !.chars = chars, !.nd = "init", !.ret = <<>>, !.res = "no"])
\* the source answers: text, nothing yet, or its end
Got(r, kind, text) ==
  IF kind = "none" THEN Check([r EXCEPT !.nd = "none"])
  ELSE LET s == DecStep(r.db, text, FALSE)
           q == [r EXCEPT !.db = s.buf, !.cb = @ \o s.out, !.nd = IF text = <<>> THEN "empty" ELSE "text"]
       IN  IF text = <<>> THEN Give(q) ELSE Check(q)
=============================================================================
