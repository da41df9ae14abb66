----------------------------- MODULE BackendMC ------------------------------
(* Bounded model of commands on locations of every class: which store they   *)
(* change, and what a load sees between the backend calls and after a call   *)
(* that fails.                                                               *)
EXTENDS Backend
CONSTANTS MaxVers, MaxKeys
VARIABLES d,       \* the key set in each backend at each location: <<backend, class>> -> key set
          st,      \* the store of the location at work (between commands: StoreOf d)
          run,     \* the command at work: [loc, c, a, todo] or <<>>
          used
vars == <<d, st, run, used>>
Places == {<<b, loc>> : b \in Range(Registry), loc \in LocClasses}
Cmds == {[op |-> "create", purpose |-> "DECRYPT_AND_ENCRYPT", asym |-> "", name |-> "n", via |-> "", v |-> 0, status |-> "", size |-> 0]}
   \cup {[op |-> "addkey", status |-> s, size |-> 0, via |-> "", v |-> 0] : s \in {"PRIMARY", "ACTIVE"}}
   \cup {[op |-> o, v |-> n, via |-> "", status |-> "", size |-> 0] : o \in {"promote", "demote", "revoke"}, n \in 1..MaxVers}
Locs == {"dir", "both", "none"}      \* one class per choice that can be made
Init == d = [p \in Places |-> NoSet] /\ st = StoreOf(NoSet) /\ run = <<>> /\ used = 0
Start(loc, c) ==
  LET b == ChosenOf(loc)
  IN  /\ run = <<>> /\ b # ""
      /\ Legal(d[<<b, loc>>], c)
      /\ used' = IF c.op = "addkey" THEN used + 1 ELSE used
      /\ st' = StoreOf(d[<<b, loc>>])
      /\ run' = <<[loc |-> loc, c |-> c, a |-> After(d[<<b, loc>>], c, used + 1), todo |-> Puts(d[<<b, loc>>], c, used + 1)]>>
      /\ UNCHANGED d
Step == /\ run # <<>> /\ run[1].todo # <<>>
        /\ st' = Apply(st, Head(run[1].todo), run[1].a)
        /\ run' = <<[run[1] EXCEPT !.todo = Tail(@)]>>
        /\ UNCHANGED <<d, used>>
\* the command ends, or one of its backend calls fails and the command gives up: what
\* is listed then is what counts
Finish == /\ run # <<>>
          /\ LET p == <<ChosenOf(run[1].loc), run[1].loc>>
             IN  d' = [d EXCEPT ![p] = IF Seen(st) = Seen(StoreOf(run[1].a)) THEN run[1].a ELSE @]
          /\ run' = <<>> /\ st' = StoreOf(NoSet) /\ UNCHANGED used
Next == (\E loc \in Locs, c \in Cmds : Start(loc, c)) \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Bound == used <= MaxKeys /\ \A p \in Places : MaxVersion(d[p]) <= MaxVers
\* at every moment a load sees the set before or after the command, complete
Complete == run = <<>> \/ (/\ DOMAIN Seen(st).keys = DOMAIN st.meta.vers
                            /\ Seen(st) \in {Seen(StoreOf(d[<<ChosenOf(run[1].loc), run[1].loc>>])), Seen(StoreOf(run[1].a))})
\* a command changes the place that serves its location and nothing else
OnlyServing == \A p \in Places : d[p] # NoSet => p[1] = ChosenOf(p[2])
Inv == Complete /\ OnlyServing /\ \A p \in Places : WellFormed(d[p])
Others == [][\A p, q \in Places : d'[p] # d[p] /\ d'[q] # d[q] => p = q]_vars
=============================================================================
