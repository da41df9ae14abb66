------------------------------- MODULE B64Hist ------------------------------
(* Behaviours of the Base64 model for replay on the code.                     *)
EXTENDS B64MC, TLC, Json
VARIABLE hist
Hs == <<vars, hist>>
HInit == Init /\ hist = [enc |-> <<>>, dec |-> <<>>, ans |-> <<>>, req |-> <<>>]
HEncode == Encode /\ hist' = [hist EXCEPT !.enc = Append(@, fed' - fed)]
HDecode == Decode /\ hist' = [hist EXCEPT !.dec = Append(@, dpos' - dpos)]
HRequest == Request /\ hist' = [hist EXCEPT !.req = Append(@, <<r'.size, r'.chars>>)]
HSource == Source /\ hist' = [hist EXCEPT !.ans = Append(@, IF gaps' > gaps THEN 0 ELSE IF pos' = pos THEN -1 ELSE pos' - pos)]
HOther == (Finish \/ Text \/ DFlush) /\ UNCHANGED hist
Over == stage \in {"decoded"} \/ (stage = "dec" /\ ~dok) \/ (stage = "read" /\ r.pc = "idle" /\ r.res \in {"end", "error"})
Done == /\ Over /\ stage' = "over"
        /\ PrintT(<<"HIST", ToJson([n |-> n, enc |-> hist.enc, dec |-> hist.dec, ans |-> hist.ans, req |-> hist.req, text |-> text])>>)
        /\ UNCHANGED <<n, ebuf, eout, fed, text, white, pos, r, gaps, got, dbuf, dout, dpos, dok, hist>>
HNext == HEncode \/ HDecode \/ HRequest \/ HSource \/ HOther \/ Done
HSpec == HInit /\ [][HNext]_Hs
=============================================================================
