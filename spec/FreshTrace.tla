----------------------------- MODULE FreshTrace -----------------------------
(* Validates the random material found in recorded outputs.  Decides C18.    *)
EXTENDS TraceBase, Fresh
VARIABLES l, st, bad
C(cond, clause) == If(cond, "C18", clause)

\* e.items: the material found in the outputs of one operation:
\*   kind, size, len, at (position in the stream of the source, -1: not there as it is), val
Total(e) == LET RECURSIVE Sum(_)
                Sum(i) == IF i > Len(e.items) THEN 0 ELSE e.items[i].len + Sum(i + 1)
            IN  Sum(1)
ItemClauses(s, e, i) ==
  LET x == e.items[i] IN
       C(x.len = Length(x.kind, x.size), "random material is shorter than it should be")
  \cup C(x.val \notin s.seen, "the same random material is in two outputs")
  \cup C(\A j \in 1..(i - 1) : e.items[j].val # x.val, "the same random material is used twice in one operation")
  \cup C(x.at >= 0 => \A u \in s.used : Disjoint(u, x), "a random byte is used twice")
  \cup C(x.at >= 0 => \A j \in 1..(i - 1) : e.items[j].at >= 0 => Disjoint(e.items[j], x), "a random byte is used twice")
  \cup C(x.at < 0 => e.drawn >= Total(e), "random material does not come from the operating system")

UseClauses(s, e) ==
       C(e.res = "ok", "an operation failed")
  \cup C(e.res = "ok" => Need(e.op, e.w, e.s) \subseteq {x.kind : x \in Range(e.items)}, "an output lacks its random material")
  \cup UNION {ItemClauses(s, e, i) : i \in DOMAIN e.items}

Fails(s, e) ==
  CASE e.ev = "use" -> UseClauses(s, e)
    [] e.ev = "nosource" -> C(Need(e.op, e.w, e.s) # {} => e.res = "err", "an operation succeeds without a random source")
    [] e.ev = "stat" -> C(e.n >= 30 => 3 * e.mindist >= e.n /\ ~e.twins, "random material has bytes that do not vary")
    [] OTHER -> {}
Init == l = 1 /\ bad = <<>> /\ st = [seen |-> {}, used |-> {}]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ bad' = Report(bad, l, Fails(st, e))
     /\ st' = CASE e.ev = "reset" -> [st EXCEPT !.used = {}]
                [] e.ev = "use" -> [seen |-> st.seen \cup {x.val : x \in Range(e.items)},
                                    used |-> st.used \cup {[at |-> x.at, len |-> x.len] : x \in {y \in Range(e.items) : y.at >= 0}}]
                [] OTHER -> st
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
