----------------------------- MODULE SessionHist ----------------------------
(* Random histories of rotations, sessions, messages, forgeries, decrypters   *)
(* and openings, printed for replay on the real code.                         *)
EXTENDS SessionMC, TLC, Json
CONSTANT Depth
VARIABLE h
None == [op |-> "", i |-> 0, j |-> 0, k |-> "", p |-> "", v |-> 0]
Step(r) == h' = Append(h, r)
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : Len(h) >= 0})
HNext ==
  \E t \in {Pick(1 .. 20)}, sg \in {Pick(Parties)}, u \in {Pick(1 .. 1000)} :
     CASE t = 1 /\ w.made < 5 -> w' = Rotate(w) /\ UNCHANGED <<sig, sess, msgs, decs, signed>> /\ Step([None EXCEPT !.op = "rotw"])
       [] t = 2 /\ w.has \ {w.prim} # {} ->
            \E v \in {Pick(w.has \ {w.prim})} :
               w' = RevokeOld(w, v) /\ UNCHANGED <<sig, sess, msgs, decs, signed>> /\ Step([None EXCEPT !.op = "revw", !.v = v])
       [] t = 3 /\ sig[sg].made < 4 -> sig' = [sig EXCEPT ![sg] = Rotate(@)] /\ UNCHANGED <<w, sess, msgs, decs, signed>>
                                       /\ Step([None EXCEPT !.op = "rots", !.p = sg])
       [] t = 4 /\ sig[sg].has \ {sig[sg].prim} # {} ->
            \E v \in {Pick(sig[sg].has \ {sig[sg].prim})} :
               sig' = [sig EXCEPT ![sg] = RevokeOld(@, v)] /\ UNCHANGED <<w, sess, msgs, decs, signed>>
               /\ Step([None EXCEPT !.op = "revs", !.p = sg, !.v = v])
       [] (t \in {5, 6, 7} /\ Len(sess) < 6) \/ sess = <<>> ->
            \E k \in {Pick({"plain", "signed"})} :
               /\ sess' = Append(sess, [kind |-> k, wv |-> w.prim, by |-> IF k = "plain" THEN "S" ELSE sg, sk |-> 1])
               /\ UNCHANGED <<w, sig, msgs, decs, signed>>
               /\ Step([None EXCEPT !.op = "open", !.k = k, !.p = IF k = "plain" THEN "S" ELSE sg])
       [] (t \in {8, 9, 10} /\ Len(msgs) < 14) \/ msgs = <<>> ->
            \E i \in {Pick(DOMAIN sess)} :
               /\ msgs' = Append(msgs, [kind |-> sess[i].kind, body |-> i, sigby |-> <<"", 0>>, nonceof |-> 0])
               /\ UNCHANGED <<w, sig, sess, decs, signed>> /\ Step([None EXCEPT !.op = "send", !.i = i])
       [] t \in {11, 12} /\ Len(msgs) < 14 ->
            \E m \in {Pick(DOMAIN msgs)}, j \in {Pick(DOMAIN sess)}, k \in {Pick({"resign", "resignS", "strip", "bare", "swap", "nonce"})} :
               /\ msgs' = Append(msgs, [kind |-> "signed", body |-> msgs[m].body, sigby |-> <<"M", 0>>, nonceof |-> j])
               /\ UNCHANGED <<w, sig, sess, decs, signed>> /\ Step([None EXCEPT !.op = "forge", !.i = m, !.j = IF u % 2 = 0 THEN j ELSE msgs[m].body, !.k = k])
       [] (t \in {13, 14, 15} /\ Len(decs) < 8) \/ decs = <<>> ->
            \E i \in {Pick(DOMAIN sess)}, o \in {Pick({"plain", "signed"})} :
               LET k == IF u % 10 = 0 THEN o ELSE sess[i].kind
               IN /\ decs' = Append(decs, [kind |-> k, sess |-> i, keys |-> {}])
                  /\ UNCHANGED <<w, sig, sess, msgs, signed>> /\ Step([None EXCEPT !.op = "build", !.i = i, !.k = k, !.p = IF u % 3 = 1 THEN sg ELSE sess[i].by])
       [] OTHER -> \E d \in {Pick(DOMAIN decs)}, m \in {Pick(DOMAIN msgs)} :
                   UNCHANGED vars /\ Step([None EXCEPT !.op = "decrypt", !.i = d, !.j = m])
HSpec == Init /\ h = <<>> /\ [][HNext]_<<vars, h>>
PrintHist == Len(h) = Depth => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
