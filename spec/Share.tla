------------------------------- MODULE Share --------------------------------
(* Sharing a key set object.  Operations under way at the same time (in      *)
(* threads, or in streams that are advanced in turn) each have working       *)
(* state of their own; the key set is only read.  So every interleaving      *)
(* gives every operation the result it has alone.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Steps, Scratch    \* Scratch: working state lives in the shared object (a wrong design)
VARIABLES ks, op, pc, loc, out, shared, sched

Ops == {"enc", "dec", "old", "bad"}
Keys == {1, 2}
\* what an operation gives when nothing else runs: <<key, data, verdict>>
Alone(o, t, k) ==
  CASE o = "enc" -> <<k.primary, t, "ok">>
    [] o = "dec" -> <<2, t, "ok">>
    [] o = "old" -> <<1, t, "ok">>
    [] o = "bad" -> <<2, t, "refused">>

KS0 == [primary |-> 2, keys |-> Keys]
vars == <<ks, op, pc, loc, out, shared, sched>>
Init == /\ ks = KS0
        /\ op \in [Threads -> Ops]
        /\ pc = [t \in Threads |-> 1]
        /\ loc = [t \in Threads |-> <<0, 0, "">>]
        /\ out = [t \in Threads |-> <<>>]
        /\ shared = <<0, 0, "">>
        /\ sched = <<>>

\* step 1 chooses the key, the following ones work on the data, the last gives the result
Work(s, t, w) ==
  CASE s = 1 -> <<Alone(op[t], t, ks)[1], w[2], "">>
    [] s = 2 -> <<w[1], t, w[3]>>
    [] s = Steps -> <<w[1], w[2], Alone(op[t], t, ks)[3]>>
    [] OTHER -> w
Step(t) ==
  /\ pc[t] <= Steps
  /\ LET w == IF Scratch THEN shared ELSE loc[t]
         r == Work(pc[t], t, w)
     IN  /\ IF Scratch THEN shared' = r /\ loc' = loc ELSE loc' = [loc EXCEPT ![t] = r] /\ shared' = shared
         /\ out' = IF pc[t] = Steps THEN [out EXCEPT ![t] = r] ELSE out
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED <<ks, op>>
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

SameAsAlone == \A t \in Threads : out[t] # <<>> => out[t] = Alone(op[t], t, KS0)
SetUnchanged == ks = KS0
\* every complete interleaving, for the code to follow
Schedules == (Len(sched) = Cardinality(Threads) * Steps /\ op = [t \in Threads |-> "enc"]) => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
