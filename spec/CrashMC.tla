------------------------------ MODULE CrashMC ------------------------------
(* Every command interrupted (crash or failing step) at every step, with a   *)
(* process that loads the set step by step at the same time.                 *)
EXTENDS Crash, Json
CONSTANTS MaxVers, MaxKeys, Vias, Proto
VARIABLES disk,     \* what is stored
          cur,      \* running command: [on, c, before, after, pc] 
          used, ld  \* ld: the loader [on, meta, got, seen, out]
vars == <<disk, cur, used, ld>>

Plain == [op |-> "", purpose |-> "SIGN_AND_VERIFY", asym |-> "", name |-> "n", via |-> "", v |-> 0, status |-> "", size |-> 0]
Cmds ==
       {[Plain EXCEPT !.op = "create"]}
  \cup {[Plain EXCEPT !.op = "addkey", !.status = s, !.via = a] : s \in {"PRIMARY", "ACTIVE"}, a \in Vias}
  \cup {[Plain EXCEPT !.op = o, !.v = n, !.via = a] : o \in {"promote", "demote", "revoke"}, n \in 1..MaxVers, a \in Vias}

Idle == [on |-> FALSE, c |-> Plain, before |-> NoSet, after |-> NoSet, pc |-> 1, res |-> "none"]
NoLoad == [on |-> FALSE, meta |-> NoSet, got |-> EmptyFun, seen |-> {}, rev |-> FALSE, res |-> "none"]
Init == disk = DiskOf(NoSet) /\ cur = Idle /\ used = 0 /\ ld = NoLoad

Now == View(disk)
Start(c) ==
  /\ ~cur.on /\ Legal(Now, c)
  /\ ld.on => Cardinality(ld.seen) = 1       \* a load overlaps at most one command
  /\ LET a == After(Now, c, used + 1) IN
       /\ cur' = [on |-> TRUE, c |-> c, before |-> Now, after |-> a, pc |-> 1, res |-> "none"]
       /\ ld' = IF ld.on THEN [ld EXCEPT !.seen = @ \cup {a}, !.rev = @ \/ c.op = "revoke"] ELSE ld
  /\ used' = IF c.op = "addkey" THEN used + 1 ELSE used
  /\ UNCHANGED disk
Prog == Steps(Proto, cur.before, cur.c, cur.after)
Step ==
  /\ cur.on /\ cur.res = "none" /\ cur.pc <= Len(Prog)
  /\ disk' = Effect(disk, Prog[cur.pc], cur.after)
  /\ cur' = IF cur.pc = Len(Prog) THEN [cur EXCEPT !.pc = @ + 1, !.res = "ok"] ELSE [cur EXCEPT !.pc = @ + 1]
  /\ UNCHANGED <<used, ld>>
\* a crash and a step that fails both end the command where it is
Abort == cur.on /\ cur.res = "none" /\ cur' = [cur EXCEPT !.res = "err"] /\ UNCHANGED <<disk, used, ld>>
End == cur.on /\ cur.res # "none" /\ cur' = Idle /\ UNCHANGED <<disk, used, ld>>

(* ---- the loader: metadata first, then every listed key, in any order ---- *)
LoadMeta ==
  /\ ~ld.on /\ disk.meta.meta
  /\ ld' = [on |-> TRUE, meta |-> disk.meta, got |-> EmptyFun,
            seen |-> {Now} \cup (IF cur.on THEN {cur.before, cur.after} ELSE {}),
            rev |-> cur.on /\ cur.c.op = "revoke", res |-> "none"]
  /\ UNCHANGED <<disk, cur, used>>
LoadKey ==
  /\ ld.on /\ ld.res = "none"
  /\ \E v \in Versions(ld.meta) \ DOMAIN ld.got :
       ld' = IF v \in DOMAIN disk.files /\ disk.files[v].whole
             THEN [ld EXCEPT !.got = [w \in DOMAIN ld.got \cup {v} |-> IF w = v THEN disk.files[v] ELSE ld.got[w]]]
             ELSE [ld EXCEPT !.res = "err"]
  /\ UNCHANGED <<disk, cur, used>>
LoadDone == ld.on /\ (ld.res = "err" \/ DOMAIN ld.got = Versions(ld.meta))
LoadEnd == LoadDone /\ ld' = NoLoad /\ UNCHANGED <<disk, cur, used>>

Next == (\E c \in Cmds : Start(c)) \/ Step \/ Abort \/ End \/ LoadMeta \/ LoadKey \/ LoadEnd
Spec == Init /\ [][Next]_vars
Bound == MaxVersion(disk.meta) <= MaxVers /\ used <= MaxKeys

(* ------------------------------- C15 ------------------------------------- *)
AlwaysLoadable == Now # Broken
BeforeOrAfter == cur.on => Now \in {cur.before, cur.after}
AfterAbort == cur.res = "err" => Now \in {cur.before, cur.after}
Complete == cur.res = "ok" => Now = cur.after
\* a load that overlaps at most one command sees the set before or after it; it may fail only during a revocation
LoadSees == (LoadDone /\ ld.res = "none") => View([meta |-> ld.meta, files |-> ld.got]) \in ld.seen
LoadFails == (LoadDone /\ ld.res = "err") => ld.rev

(* (state, command) pairs for the replay on the real code *)
Abstract(x) == [meta |-> x.meta, enc |-> x.enc,
                vers |-> {[n |-> v, st |-> x.vers[v].st, seal |-> x.vers[v].seal] : v \in Versions(x)}]
EdgeView == <<cur.on, Abstract(Now)>>
PrintEdges == ~cur.on => \A c \in Cmds : Legal(Now, c) => PrintT(<<"EDGE", ToJson([pre |-> Abstract(Now), c |-> c])>>)
Atomic(c) == /\ Legal(Now, c) /\ disk' = DiskOf(After(Now, c, used + 1)) /\ used' = used + 1 /\ UNCHANGED <<cur, ld>>
ESpec == Init /\ [][\E c \in Cmds : Atomic(c)]_vars
=============================================================================
