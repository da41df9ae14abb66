------------------------------- MODULE Stream -------------------------------
(* Streaming encryption and decryption.                                       *)
(* A ciphertext of an n byte plaintext is header | IV | padded blocks |       *)
(* signature; its bytes are identified by their positions 1..Total(n), byte i *)
(* of the (padded) plaintext by i.  What happens to bytes (kept, dropped,     *)
(* repeated, reordered, signed) is then visible in sequences of positions.    *)
(* Part 1 is the contract a user relies on; part 2 the writer, part 3 the     *)
(* reader in the shape of the implementation.                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BS,   \* cipher block size
          HL,   \* signature length
          HD,   \* header length
          OVER  \* by how much a decoding source may exceed the requested size

Seg(a, z) == [i \in 1 .. (IF z < a THEN 0 ELSE z - a + 1) |-> a + i - 1]
First(s, k) == SubSeq(s, 1, IF k > Len(s) THEN Len(s) ELSE k)
Skip(s, k) == IF k >= Len(s) THEN <<>> ELSE SubSeq(s, k + 1, Len(s))
Lesser(a, z) == IF a < z THEN a ELSE z
Greater(a, z) == IF a > z THEN a ELSE z

Blocks(n) == n \div BS + 1                     \* PKCS5 always pads
Total(n) == HD + BS + BS * Blocks(n) + HL

(* ---- part 1: the contract ---- *)
\* The stream as received: its bytes are positions of an honest stream of an
\* n byte plaintext, or 0 for a byte that is not the honest one at that place.
Honest(n) == Seg(1, Total(n))
Intact(n, recv) == recv = Honest(n)
\* number of plaintext bytes that blocks before the first wrong byte carry
FirstWrong(n, recv) ==
  LET w == {i \in 1 .. Len(recv) : i > Total(n) \/ recv[i] # i}
  IN  IF w = {} THEN Len(recv) + 1 ELSE CHOOSE i \in w : \A j \in w : i <= j
Untouched(n, recv) ==
  LET b == FirstWrong(n, recv) - 1 - HD - BS
  IN  IF b <= 0 THEN 0 ELSE Lesser(BS * (b \div BS), BS * Blocks(n))

\* One read of at most want bytes (negative: all) after d bytes were delivered
\* gave got bytes ("data"), "none" (nothing yet), "end", or "error".  eof: the
\* source has reported its end.
MayRead(n, ok, d, want, kind, got, eof) ==
  CASE kind = "data" -> got > 0 /\ (want < 0 \/ got <= want) /\ (ok => d + got <= n)
    [] kind = "none" -> want = 0 \/ ~eof
    [] kind = "end" -> (ok /\ d = n) \/ (want = 0 /\ ok)
    [] kind = "error" -> ~ok
    [] OTHER -> FALSE

(* ---- part 2: the writer ---- *)
\* out: what reached the output; mac: what the signature covers
WNew == [out |-> Seg(1, HD + BS), mac |-> Seg(1, HD + BS), buf |-> <<>>, closed |-> FALSE]
Body(s) == [i \in DOMAIN s |-> HD + BS + s[i]]
WWrite(w, data) ==
  LET all == w.buf \o data
      k == BS * (Len(all) \div BS)
  IN  [w EXCEPT !.out = @ \o Body(First(all, k)), !.mac = @ \o Body(First(all, k)), !.buf = Skip(all, k)]
\* the signature is honest only if it covers exactly what an honest one covers
WFlush(w, n) ==
  LET last == w.buf \o Seg(n + 1, BS * Blocks(n))
      mac == w.mac \o Body(last)
      sig == IF mac = Seg(1, Total(n) - HL) THEN Seg(Total(n) - HL + 1, Total(n)) ELSE [i \in 1 .. HL |-> 0]
  IN  [w EXCEPT !.out = @ \o Body(last) \o sig, !.buf = <<>>, !.mac = mac]

(* ---- part 3: the reader ---- *)
\* pc: where read() stands; eb: encrypted buffer; db: decrypted bytes not yet
\* returned; need: how many bytes the current phase still waits for
RNew == [pc |-> "idle", haskey |-> FALSE, hasiv |-> FALSE, eb |-> <<>>, db |-> <<>>, mac |-> <<>>,
         got |-> <<>>, need |-> 0, avail |-> TRUE, verified |-> FALSE, want |-> 0, res |-> "no", ret |-> <<>>]
\* where a read() continues when the source was available so far
Phase(r) ==
  IF ~r.avail THEN [r EXCEPT !.pc = "fin"]
  ELSE IF ~r.haskey THEN [r EXCEPT !.pc = "key", !.got = <<>>, !.need = HD - Len(r.eb)]
  ELSE IF ~r.hasiv THEN [r EXCEPT !.pc = "iv", !.got = <<>>, !.need = BS - Len(r.eb)]
  ELSE [r EXCEPT !.pc = "body", !.got = <<>>, !.need = BS]
Begin(r, want) == Phase([r EXCEPT !.want = want, !.avail = TRUE, !.ret = <<>>, !.res = "no"])

Fail(r, e) == [r EXCEPT !.pc = "idle", !.res = e, !.ret = <<>>]
\* the positions the blocks s decrypt to (0: garbage): a block needs itself and
\* the block before it, here prev
PlainOf(n, s, prev) ==
  [i \in DOMAIN s |->
     LET b == (i - 1) \div BS
         prevb == IF b = 0 THEN prev ELSE SubSeq(s, BS * (b - 1) + 1, BS * b)
         thisb == SubSeq(s, BS * b + 1, BS * (b + 1))
     IN  IF thisb[1] > HD + BS /\ thisb = Seg(thisb[1], thisb[1] + BS - 1) /\ prevb = Seg(thisb[1] - BS, thisb[1] - 1)
         THEN s[i] - HD - BS ELSE 0]

\* the phase has its bytes (or the source ended): go on
Settle(n, r) ==
  LET eb == r.eb \o r.got
  IN CASE r.pc = "key" ->
        IF Len(eb) >= HD
        THEN IF First(eb, HD) # Seg(1, HD) THEN Fail([r EXCEPT !.eb = eb], "error")
             ELSE Phase([r EXCEPT !.haskey = TRUE, !.eb = Skip(eb, HD), !.mac = First(eb, HD)])
        ELSE Phase([r EXCEPT !.eb = eb])
     [] r.pc = "iv" ->
        IF Len(eb) >= BS
        THEN Phase([r EXCEPT !.hasiv = TRUE, !.eb = Skip(eb, BS), !.mac = @ \o First(eb, BS)])
        ELSE Phase([r EXCEPT !.eb = eb])
     [] r.pc = "body" ->
        LET resv == IF r.avail THEN HL + BS ELSE HL
            av == First(eb, Greater(Len(eb) - resv, 0))
            dec == IF r.avail THEN First(av, BS * (Len(av) \div BS)) ELSE av
            rest == Skip(eb, Len(dec))
            mac == r.mac \o dec
            prev == SubSeq(r.mac, Len(r.mac) - BS + 1, Len(r.mac))
        IN IF r.avail /\ dec = <<>> THEN [r EXCEPT !.eb = eb, !.got = <<>>, !.need = BS]
           ELSE IF dec = <<>> THEN [r EXCEPT !.eb = eb, !.pc = "fin"]
           ELSE IF r.avail
           THEN [r EXCEPT !.eb = rest, !.mac = mac, !.db = @ \o PlainOf(n, dec, prev), !.pc = "fin"]
           ELSE IF mac # Seg(1, Total(n) - HL) \/ rest # Seg(Total(n) - HL + 1, Total(n))
           THEN Fail([r EXCEPT !.eb = <<>>, !.mac = mac], "error")
           ELSE [r EXCEPT !.eb = <<>>, !.mac = mac, !.verified = TRUE, !.pc = "fin",
                          !.db = @ \o First(PlainOf(n, dec, prev), Len(dec) - (BS * Blocks(n) - n))]
Finish(r) ==
  IF ~r.avail /\ ~r.verified THEN Fail(r, "error")
  ELSE LET k == IF r.want < 0 THEN Len(r.db) ELSE r.want
           out == First(r.db, k)
       IN  [r EXCEPT !.pc = "idle", !.db = Skip(r.db, k), !.ret = out,
                     !.res = IF out # <<>> THEN "data" ELSE IF r.avail THEN "none" ELSE "end"]
\* the source answers the read of r.need bytes: some bytes, none, or its end
Answer(n, r, kind, bytes) ==
  CASE kind = "none" -> IF r.pc = "body" THEN Settle(n, r) ELSE r
    [] kind = "end" -> LET q == [r EXCEPT !.avail = FALSE] IN Settle(n, q)
    [] OTHER -> LET q == [r EXCEPT !.got = @ \o bytes] IN IF Len(q.got) < q.need THEN q ELSE Settle(n, q)
=============================================================================
