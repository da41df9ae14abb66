----------------------------- MODULE StreamHist -----------------------------
(* Behaviours of the stream model at the real sizes (16 byte blocks, 20 byte  *)
(* signature, 5 byte header), for replay on the code: what was written in     *)
(* which pieces, what arrived, how the source answered and what was asked.    *)
EXTENDS StreamMC, TLC, Json
VARIABLE hist   \* writes, wants, answers (0: nothing yet, -1: end)
Ns == {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 60}
HInit == /\ Init /\ n \in Ns /\ hist = [writes |-> <<>>, wants |-> <<>>, ans |-> <<>>]
HWants == {-1, 0, 1, 2, 15, 16, 17, 40}
HWrite == /\ stage = "write" /\ fed < n
          /\ \E k \in {1, 2, 7, 15, 16, 17, 33} : fed + k <= n /\ w' = WWrite(w, Seg(fed + 1, fed + k)) /\ fed' = fed + k
                                         /\ hist' = [hist EXCEPT !.writes = Append(@, k)]
          /\ stage' = stage /\ Rest
HFlush == Flush /\ UNCHANGED hist
HArrive == Arrive /\ UNCHANGED hist
HRead == /\ stage = "read" /\ r.pc = "idle" /\ r.res # "error" /\ (r.res # "end" \/ r.want = 0)
         /\ \E want \in HWants : r' = Begin(r, want) /\ hist' = [hist EXCEPT !.wants = Append(@, want)]
         /\ UNCHANGED <<n, w, fed, recv, pos, gaps, delivered, stage, eof>>
HSource == /\ Source
           /\ hist' = [hist EXCEPT !.ans = Append(@, IF pos' > pos THEN pos' - pos ELSE IF gaps' > gaps THEN 0 ELSE -1)]
HReturn == Return /\ UNCHANGED hist
Over == stage = "read" /\ r.pc = "idle" /\ (r.res = "error" \/ (r.res = "end" /\ r.want # 0))
Wrong == {i \in 1 .. Len(recv) : i > Total(n) \/ recv[i] # i}
Done == /\ Over /\ stage' = "over"
        /\ PrintT(<<"HIST", ToJson([n |-> n, writes |-> hist.writes, wants |-> hist.wants, ans |-> hist.ans, recv |-> recv])>>)
        /\ UNCHANGED <<n, w, fed, recv, pos, r, gaps, delivered, eof, hist>>
HNext == HWrite \/ HFlush \/ HArrive \/ HRead \/ HSource \/ HReturn \/ Done
HSpec == HInit /\ [][HNext]_<<vars, hist>>
=============================================================================
