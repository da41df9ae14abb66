---------------------------- MODULE InteropTrace ----------------------------
(* Validates recorded runs of the interop tool: every call of an             *)
(* implementation has to be a step of the matrix that is still to be done.   *)
EXTENDS TraceBase, Interop
VARIABLES l, st, bad
C(cond, clause) == If(cond, "C16", clause)

(* ---- logged option sets: sequences of [k, v] ---- *)
Fun(s) == [x \in {p.k : p \in Range(s)} |-> (CHOOSE p \in Range(s) : p.k = x).v]
Cfg(j) == [impls |-> j.impls, algs |-> j.algs,
           kso |-> [p \in DOMAIN j.kso |-> [gen |-> Fun(j.kso[p].gen), test |-> Fun(j.kso[p].test)]],
           ops |-> [i \in DOMAIN j.ops |-> [j.ops[i] EXCEPT !.gen = Fun(@), !.test = Fun(@)]],
           rules |-> [i \in DOMAIN j.rules |-> [j.rules[i] EXCEPT !.opts = Fun(@)]]]
CmdSeq(s) == [i \in DOMAIN s |-> [cmd |-> s[i].cmd, flags |-> Range(s[i].flags)]]
FlagCount(s) == \A i \in DOMAIN s : Len(s[i].flags) = Cardinality(Range(s[i].flags))

Start(j, mode) ==
  LET g == Cfg(j)
      runs == mode \in {"run", "nocreate"}
      gens == IF runs \/ mode = "display" THEN Generates(g) ELSE {}
  IN  [g |-> g, mode |-> mode,
       c |-> IF mode = "run" THEN {[x |-> x, cmds |-> Commands(g, x), impl |-> x.impl, enc |-> x.enc] : x \in Creates(g)} ELSE {},
       gen |-> IF runs THEN gens ELSE {}, out |-> EmptyFun,
       t |-> IF runs \/ mode = "display" THEN UNION {TestsOf(g, x) : x \in gens} ELSE {},
       nt |-> 0, nf |-> 0, stop |-> FALSE]

Purposes == {"crypt", "encrypt", "sign", "verify"}
GenMatch(s, e) == {[impl |-> e.impl, op |-> e.op, alg |-> e.alg, purpose |-> p, gopts |-> Fun(e.gopts)] : p \in Purposes} \cap s.gen
\* the generation whose output the test got, if it belongs to the test
TestMatch(s, e) ==
  IF e.output \in DOMAIN s.out
  THEN LET x == s.out[e.output] IN
       IF e.op = x.op /\ e.alg = x.alg /\ Fun(e.gopts) = x.gopts /\ e.keyPath = "keys/" \o x.impl THEN {x} ELSE {}
  ELSE {}
TestSet(s, e, x) ==
  {[impl |-> e.impl, by |-> x.impl, op |-> x.op, alg |-> x.alg, purpose |-> x.purpose, tp |-> tp,
    gopts |-> x.gopts, topts |-> Fun(e.topts)] : tp \in Purposes} \cap s.t
CreateMatch(s, e) == {x \in s.c : x.impl = e.impl /\ x.cmds = CmdSeq(e.cmds)}
Data == "This is some test data."

CallClauses(s, e) ==
  CASE e.cmd = "create" ->
            C(CreateMatch(s, e) # {} /\ FlagCount(e.cmds), "keys are created with other commands than documented, or twice")
       \cup C(e.ready, "a key directory is not there or not empty when its keys are created")
       \cup C((\E x \in CreateMatch(s, e) : x.enc) => \A x \in s.c : x.impl = e.impl => x.enc,
              "an encrypted key set is created before the keys that encrypt it")
       \cup C(s.gen = {} \/ DOMAIN s.out = {}, "keys are created after data was generated")
    [] e.cmd = "generate" ->
            C(GenMatch(s, e) # {}, "data is generated for a combination that is ignored, impossible or done already")
       \cup C(e.keyPath = "keys/" \o e.impl, "data is generated with the keys of another implementation")
       \cup C(e.data = Data /\ e.topts = <<>> /\ e.output = "None", "an implementation got other input than documented")
       \cup C(s.c = {}, "data is generated before the keys are there")
       \cup C(s.nt = 0, "data is generated after the tests began")
    [] e.cmd = "test" ->
            C(TestMatch(s, e) # {}, "a test got the output or key path of another combination")
       \cup C(\A o \in TestMatch(s, e) : TestSet(s, e, o) # {}, "a test is run that is ignored, impossible or done already")
       \cup C(e.data = Data, "an implementation got other input than documented")
       \cup C(s.gen = {}, "tests begin before all data is generated")
    [] OTHER -> C(FALSE, "an implementation got an unknown command")

AfterCall(s, e) ==
  CASE e.cmd = "create" -> [s EXCEPT !.c = IF CreateMatch(s, e) = {} THEN @ ELSE @ \ {CHOOSE x \in CreateMatch(s, e) : TRUE},
                                     !.stop = @ \/ e.failed]
    [] e.cmd = "generate" -> LET m == GenMatch(s, e) IN
         IF m = {} THEN s ELSE LET x == CHOOSE y \in m : TRUE IN
           [s EXCEPT !.gen = @ \ {x}, !.out = (e.tag :> x) @@ @, !.stop = @ \/ e.failed]
    [] e.cmd = "test" -> LET o == TestMatch(s, e) IN
         IF o = {} THEN s ELSE LET t == TestSet(s, e, CHOOSE y \in o : TRUE) IN
           [s EXCEPT !.t = IF t = {} THEN @ ELSE @ \ {CHOOSE y \in t : TRUE}, !.nt = @ + 1, !.nf = IF e.failed THEN @ + 1 ELSE @]
    [] OTHER -> s

(* ---- the lists that display and options print ---- *)
Prefix(t) == "test_" \o t.impl \o "_generated_by_" \o t.by \o "_" \o t.op \o "_" \o t.alg \o "_"
StartsWith(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
DisplayOk(s, e) ==
  /\ Len(e.lines) = Cardinality(s.t)
  /\ \A p \in {Prefix(t) : t \in s.t} :
        Cardinality({t \in s.t : Prefix(t) = p}) = Cardinality({i \in DOMAIN e.lines : StartsWith(e.lines[i], p)})
OptPairs(g, which) ==
  UNION {UNION {UNION {UNION {{<<which, o.name, k, f[k]>> : k \in DOMAIN f} : f \in Options(g, o, p, which)}
     : p \in IF which = "gen" THEN {ks.purpose} ELSE TestPurposes(ks)} : ks \in GenKeysets(g, o.keytype)} : o \in Range(g.ops)}
OptionsOk(s, e) == UNION {{<<x.which, x.op, x.k, v>> : v \in Range(x.v)} : x \in Range(e.opt)} = OptPairs(s.g, "gen") \cup OptPairs(s.g, "test")

EndClauses(s, e) ==
       C(e.lost = <<>>, "a file outside the key directories was deleted or changed")
  \cup C(e.mode = "nocreate" => e.gone = 0, "keys were deleted although no keys are created")
  \cup (IF e.mode \in {"run", "nocreate"}
        THEN IF s.stop
             THEN C(e.rc # 0 /\ e.boom, "a failing implementation is not reported")
             ELSE     C(s.c = {}, "keys are not created")
                 \cup C(s.gen = {}, "an allowed combination is not generated")
                 \cup C(s.t = {}, "an allowed test is not run")
                 \cup C(e.ran = s.nt, "the number of tests reported is not the number of tests run")
                 \cup C(e.failed = s.nf, "failing tests are not reported as failures")
                 \cup C((s.nf > 0) = (e.rc # 0), "the exit status does not tell whether tests failed")
        ELSE     C(e.mode = "display" => e.rc = 0 /\ DisplayOk(s, e), "the displayed tests are not the tests of the matrix")
            \cup C(e.mode = "options" => e.rc = 0 /\ OptionsOk(s, e), "the displayed options are not the options of the matrix")
            \cup C(e.mode = "refused" => e.rc # 0, "a wrong command line is accepted")
            \cup C(e.gone = 0, "keys were deleted although no keys are created"))

Fails(s, e) ==
  CASE e.ev = "call" -> CallClauses(s, e)
    [] e.ev = "end" -> EndClauses(s, e)
    [] OTHER -> {}
Init == l = 1 /\ bad = <<>> /\ st = [mode |-> "none"]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ bad' = Report(bad, l, Fails(st, e))
     /\ st' = CASE e.ev = "reset" -> Start(e.g, e.mode) [] e.ev = "call" -> AfterCall(st, e) [] OTHER -> st
  /\ l' = l + 1
  /\ Verdict(l, bad', <<>>)
Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
