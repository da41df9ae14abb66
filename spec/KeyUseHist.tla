----------------------------- MODULE KeyUseHist -----------------------------
(* Random histories of KeyUseMC, printed for replay on the real code.        *)
EXTENDS KeyUseMC
CONSTANT Depth
VARIABLE h
Step(s) == h' = Append(h, s)
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : Len(h) >= 0})
HNext ==
  \E k \in {Pick(1..10)} :
     IF k <= 4 /\ {c \in Cmds : Legal(d, c)} # {}
     THEN \E c \in {Pick({x \in Cmds : Legal(d, x)})} :
             Cmd(c) /\ Step([step |-> "cmd", c |-> c, h |-> 0])
     ELSE IF k <= 6
     THEN \E x \in {Pick(Handles)} :
             Load(x) /\ Step([step |-> "load", c |-> [op |-> ""], h |-> x])
     ELSE \E x \in {Pick(Handles)} :
             UNCHANGED vars /\ Step([step |-> "use", c |-> [op |-> ""], h |-> x])
HSpec == Init /\ h = <<>> /\ [][HNext]_<<vars, h>>
PrintHist == Len(h) = Depth => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
