----------------------------- MODULE KeySetHist -----------------------------
(* Random long command histories of the lifecycle model, printed for replay  *)
(* on the real code (TLC -simulate).                                         *)
EXTENDS KeySetMC
CONSTANT Depth
VARIABLE h
HInit == Init /\ h = <<>>
\* mostly legal commands, some illegal ones
HNext == \E c \in Cmds :
            /\ Legal(d, c) \/ RandomElement({x \in 1..40 : Len(h) >= 0}) = 1
            /\ Do(c)
            /\ h' = Append(h, c)
HSpec == HInit /\ [][HNext]_<<vars, h>>
PrintHist == Len(h) = Depth => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
