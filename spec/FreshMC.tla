------------------------------ MODULE FreshMC ------------------------------
(* Interleaved operations of several objects drawing from one source, with   *)
(* or without a buffer, and a process that forks.                            *)
EXTENDS Fresh, Json
CONSTANTS MaxOps, Depth, Buffered
VARIABLES drawn,    \* bytes the source has delivered
          buf,      \* process -> interval of delivered bytes nobody has used
          used,     \* set of [proc, at, len, kind]: material in outputs
          n, hist
vars == <<drawn, buf, used, n, hist>>
Ops == {"enc", "stream", "sign", "open", "opensigned", "send", "sendsigned", "genaes", "genhmac", "genpair", "crypted"}
Procs == {1, 2}
Init == drawn = 0 /\ buf = [p \in Procs |-> [at |-> 0, len |-> 0]] /\ used = {} /\ n = 0 /\ hist = <<>>

\* take len bytes: from the buffer if it has them, else from the source
Take2(p, kind) ==
  LET len == Length(kind, 128)
      b == buf[p]
  IN  IF Buffered /\ b.len >= len
      THEN /\ used' = used \cup {[proc |-> p, at |-> b.at, len |-> len, kind |-> kind]}
           /\ buf' = [buf EXCEPT ![p] = [at |-> b.at + len, len |-> b.len - len]]
           /\ UNCHANGED drawn
      ELSE LET more == IF Buffered THEN 64 ELSE len IN
           /\ used' = used \cup {[proc |-> p, at |-> drawn, len |-> len, kind |-> kind]}
           /\ buf' = [buf EXCEPT ![p] = [at |-> drawn + len, len |-> more - len]]
           /\ drawn' = drawn + more
Next ==
  \/ /\ n < MaxOps
     /\ \E p \in Procs, k \in {"iv", "seed", "aes", "k"} : Take2(p, k) /\ n' = n + 1 /\ hist' = hist
  \/ \* process 2 starts as a copy of process 1, buffer included
     /\ \A u \in used : u.proc = 1
     /\ buf' = [buf EXCEPT ![2] = buf[1]] /\ UNCHANGED <<drawn, used, n, hist>>
Spec == Init /\ [][Next]_vars
(* C18 *)
NoReuse == \A u, v \in used : u # v => Disjoint(u, v)
FromSource == \A u \in used : u.at + u.len <= drawn
Full == \A u \in used : u.len = Length(u.kind, 128)

(* random histories for the replay *)
Slots == 1..3
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : Len(hist) >= 0})
HNext ==
  \E op \in {Pick(Ops)}, w \in {IF Pick(1..3) = 1 THEN "rsa" ELSE "aes"}, s \in {Pick({"dsa", "hmac", "rsasign"})},
     i \in {Pick(Slots)}, d \in {IF Pick(1..3) = 1 THEN "other" ELSE "same"} :
     /\ hist' = Append(hist, [op |-> op, w |-> w, s |-> s, slot |-> i, data |-> d])
     /\ UNCHANGED <<drawn, buf, used, n>>
HSpec == Init /\ [][HNext]_vars
PrintHist == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
