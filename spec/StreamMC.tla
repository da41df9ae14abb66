------------------------------ MODULE StreamMC ------------------------------
(* Every split of every short plaintext into writes, every truncation,        *)
(* extension and alteration on the way, every way the source delivers it      *)
(* (including gaps and over-delivery) and every sequence of read sizes.       *)
EXTENDS Stream
CONSTANTS MaxN, MaxWrite, Wants, Damage, MaxGaps
VARIABLES n, w, fed, recv, pos, r, gaps, delivered, stage, eof
W3 == {-1, 1, 3}
W2 == {-1, 1}
W4 == {-1, 1, 2, 5}
W5 == {-1, 0, 1, 3}
vars == <<n, w, fed, recv, pos, r, gaps, delivered, stage, eof>>

Init == /\ n \in 0 .. MaxN /\ w = WNew /\ fed = 0 /\ recv = <<>> /\ pos = 0 /\ r = RNew /\ gaps = 0
        /\ delivered = <<>> /\ stage = "write" /\ eof = FALSE
Rest == UNCHANGED <<n, recv, pos, r, gaps, delivered, eof>>
Write == /\ stage = "write" /\ fed < n
         /\ \E k \in 1 .. Lesser(MaxWrite, n - fed) : w' = WWrite(w, Seg(fed + 1, fed + k)) /\ fed' = fed + k
         /\ stage' = stage /\ Rest
Flush == /\ stage = "write" /\ fed = n /\ w' = WFlush(w, n) /\ stage' = "sent" /\ fed' = fed /\ Rest
\* what arrives
Variants(c) ==
  {c} \cup (IF Damage
            THEN      {SubSeq(c, 1, k) : k \in 0 .. Len(c) - 1}
                 \cup {[c EXCEPT ![k] = 0] : k \in 1 .. Len(c)}
                 \cup {c \o [i \in 1 .. k |-> 0] : k \in {1, BS, HL, BS + HL}}
                 \cup {c \o c}
                 \cup {SubSeq(c, 1, k) \o SubSeq(c, k + BS + 1, Len(c)) : k \in 0 .. Len(c) - BS}
                 \cup {SubSeq(c, 1, k) \o SubSeq(c, k - BS + 1, Len(c)) : k \in BS .. Len(c)}
            ELSE {})
Arrive == /\ stage = "sent" /\ stage' = "read" /\ \E v \in Variants(w.out) : recv' = v
          /\ UNCHANGED <<n, w, fed, pos, r, gaps, delivered, eof>>
Read == /\ stage = "read" /\ r.pc = "idle" /\ r.res # "error" /\ (r.res # "end" \/ r.want = 0)
        /\ \E want \in Wants : r' = Begin(r, want)
        /\ UNCHANGED <<n, w, fed, recv, pos, gaps, delivered, stage, eof>>
Source ==
  /\ stage = "read" /\ r.pc \in {"key", "iv", "body"}
  /\ \/ /\ gaps < MaxGaps /\ gaps' = gaps + 1 /\ r' = Answer(n, r, "none", <<>>) /\ UNCHANGED <<pos, eof>>
     \/ /\ pos = Len(recv) /\ r' = Answer(n, r, "end", <<>>) /\ eof' = TRUE /\ UNCHANGED <<gaps, pos>>
     \/ /\ pos < Len(recv)
        /\ \E k \in 1 .. (IF r.need < 0 THEN Len(recv) ELSE r.need + OVER) :
              /\ pos + k <= Len(recv)
              /\ (k <= Greater(r.need, 1) \/ pos + k = Len(recv) \/ OVER > 0)
              /\ r' = Answer(n, r, "data", SubSeq(recv, pos + 1, pos + k))
              /\ pos' = pos + k
        /\ UNCHANGED <<gaps, eof>>
  /\ UNCHANGED <<n, w, fed, recv, delivered, stage>>
Return == /\ stage = "read" /\ r.pc = "fin" /\ r' = Finish(r)
          /\ delivered' = delivered \o r'.ret
          /\ UNCHANGED <<n, w, fed, recv, pos, gaps, stage, eof>>
Next == Write \/ Flush \/ Arrive \/ Read \/ Source \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ok == Intact(n, recv)
\* C10
WriterHonest == stage # "write" => w.out = Honest(n)
InOrder == (stage = "read" /\ Ok) => delivered = Seg(1, Len(delivered)) /\ Len(delivered) <= n
EndOnlyAtEnd == (stage = "read" /\ r.res = "end" /\ r.pc = "idle" /\ r.want # 0) => Ok /\ delivered = Seg(1, n)
NoErrorIfIntact == (stage = "read" /\ r.res = "error") => ~Ok
NeverTooMuch == (r.pc = "idle" /\ r.res = "data" /\ r.want >= 0) => Len(r.ret) <= r.want
Contract == (stage = "read" /\ r.pc = "idle" /\ r.res # "no") =>
               MayRead(n, Ok, Len(delivered) - Len(r.ret), r.want, r.res, Len(r.ret), eof)
\* C11
UntouchedPrefix ==
  stage = "read" => \A i \in DOMAIN delivered : i <= Untouched(n, recv) => delivered[i] = i
LastBlockAfterSignature ==
  (stage = "read" /\ ~r.verified) => Len(delivered) <= Greater(Len(recv) - HD - BS - HL - BS, 0)
\* end of data or an error is always reached
Settles == <>(stage = "read" /\ r.pc = "idle" /\ r.res \in {"end", "error"})
=============================================================================
