------------------------------ MODULE SealHist ------------------------------
(* Random histories of SealMC for replay on the real code.                   *)
EXTENDS SealMC
CONSTANT Depth
VARIABLE hist
Step(s, c, w) == hist' = Append(hist, [step |-> s, c |-> c, with |-> w])
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : Len(hist) >= 0})
HNext ==
  \E k \in {Pick(1..20)} :
  LET ac == {c \in Cmds(MaxA) : Legal(a, c) /\ (c.op = "addkey" => used[2] < 9)}
      dc == {c \in Cmds(MaxVers) : CLegal(d, c, h, 0)}
  IN  IF k <= 4 /\ ac # {} THEN \E c \in {Pick(ac)} : ACmd(c) /\ Step("a", c, "")
      ELSE IF k <= 7 THEN LoadC /\ Step("loadc", Plain, "")
      ELSE IF k <= 14 /\ dc # {} THEN \E c \in {Pick(dc)} : DCmd(c, "h") /\ Step("d", c, "h")
      ELSE IF k <= 16 THEN \E c \in {Pick(Cmds(MaxVers))}, w \in {Pick({"none", "b", "h"})} :
                           DCmd(c, w) /\ Step("d", c, w)
      ELSE IF k <= 18 THEN UNCHANGED vars /\ Step("probe", Plain, "")
      ELSE UNCHANGED vars /\ Step("damage", Plain, "")
HSpec == Init /\ hist = <<>> /\ [][HNext]_<<vars, hist>>
PrintHist == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
