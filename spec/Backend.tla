------------------------------ MODULE Backend -------------------------------
(* Storage backends (C21).  A backend is a reader and a writer class that    *)
(* accept some locations; plug-ins are registered after the built-in file    *)
(* backend, in the order of the plug-in path.  A location is served by the   *)
(* first backend that accepts it, for reading and for writing alike, and all *)
(* management commands and roles work on it as they do on directories.       *)
(*                                                                           *)
(* Locations are classes: dir (an existing directory), p1, p2, p3 (accepted  *)
(* by one plug-in), both (by all plug-ins), alldir (a directory that the     *)
(* plug-ins accept, too), none, and broken (p1 fails when asked for it, the  *)
(* later plug-ins would accept).  The plug-in path may grow later.           *)
EXTENDS KeySet

Registry == <<"file", "p1", "p2", "p3">>
LocClasses == {"dir", "p1", "p2", "p3", "both", "alldir", "none", "broken"}
Accepts(b, loc) ==
  CASE b = "file" -> loc \in {"dir", "alldir"}
    [] b = "p1" -> loc \in {"p1", "both", "alldir"}
    [] b = "p2" -> loc \in {"p2", "both", "alldir", "broken"}
    [] b = "p3" -> loc \in {"p3", "both", "alldir", "broken"}
Serving(loc) == {i \in DOMAIN Registry : Accepts(Registry[i], loc)}
\* a backend that fails when it is asked ends the search: nobody serves the location
FailsAt(loc) == IF loc = "broken" THEN {2} ELSE {}
ChosenOf(loc) ==
  LET first == Serving(loc) \cup FailsAt(loc)
  IN  IF first = {} \/ MinOf(first) \in FailsAt(loc) THEN "" ELSE Registry[MinOf(first)]

(* What a command does with the backend's handles: calls is a sequence of    *)
(* [h, t, op, v]: handle number, "r" or "w", and open, close, getmeta,       *)
(* getkey, putmeta, putkey, remove                                           *)
OpenAt(calls, i) == \E j \in 1..(i - 1) : /\ calls[j].h = calls[i].h /\ calls[j].op = "open"
                                         /\ \A k \in (j + 1)..(i - 1) : ~(calls[k].h = calls[i].h /\ calls[k].op = "close")
Handles(calls) == {calls[i].h : i \in DOMAIN calls}
UsedWhileOpen(calls) == \A i \in DOMAIN calls : calls[i].op # "open" => OpenAt(calls, i)
AllClosed(calls) == \A h \in Handles(calls) : \E i \in DOMAIN calls : calls[i].h = h /\ calls[i].op = "close"
RightKind(calls) == \A i \in DOMAIN calls : calls[i].op \in {"getmeta", "getkey"} => calls[i].t = "r"
Mutations(calls) == {i \in DOMAIN calls : calls[i].op \in {"putmeta", "putkey", "remove"}}

(* The commands as sequences of backend calls, in the order that keeps the   *)
(* stored set complete at every moment: keys, then metadata, then removal.   *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o SeqOf(S \ {MinOf(S)})
Put(op, v) == [op |-> op, v |-> v]
Puts(d, c, key) ==
  LET a == After(d, c, key)
      ks == SeqOf(Versions(a))
  IN  CASE c.op = "create" -> <<Put("putmeta", 0)>>
        [] OTHER -> [i \in DOMAIN ks |-> Put("putkey", ks[i])] \o <<Put("putmeta", 0)>>
                     \o (IF c.op = "revoke" THEN <<Put("remove", c.v)>> ELSE <<>>)
\* a store: the stored metadata (a key set without keys) and the stored keys
StoreOf(d) == [meta |-> [d EXCEPT !.vers = [v \in Versions(d) |-> d.vers[v].st]], keys |-> [v \in Versions(d) |-> d.vers[v].key]]
Apply(s, p, a) ==
  CASE p.op = "putkey" -> [s EXCEPT !.keys = (p.v :> a.vers[p.v].key) @@ @]
    [] p.op = "putmeta" -> [s EXCEPT !.meta = StoreOf(a).meta]
    [] p.op = "remove" -> [s EXCEPT !.keys = Restrict(@, DOMAIN @ \ {p.v})]
\* what a load sees: the listed versions and their keys
Seen(s) == [meta |-> s.meta, keys |-> Restrict(s.keys, DOMAIN s.meta.vers)]
=============================================================================
