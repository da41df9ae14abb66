----------------------------- MODULE InteropMC -----------------------------
(* Configurations built piece by piece; properties of the matrix; random     *)
(* configurations for the replay.                                            *)
EXTENDS Interop, Json
CONSTANTS MaxAlgs, MaxOps, MaxImpls, MaxRules, Rich
VARIABLES g, done, size
vars == <<g, done, size>>

None == EmptyFun
One(x, s) == [y \in {x} |-> s]
AlgNames == IF Rich THEN {"aes", "hmac", "rsa-crypt", "rsa-sign", "dsa", "a_b"} ELSE {"aes", "rsa-sign", "rsa-crypt"}
OpNames == IF Rich THEN {"sign", "encrypt", "attached", "signedSession", "un_v"} ELSE {"sign", "encrypt"}
ImplNames == IF Rich THEN {"python", "java", "cpp", "c_x"} ELSE {"py", "java"}
OptSets == IF Rich
  THEN {None, One("encoding", <<"encoded", "unencoded">>), One("signer", <<SigningKeys>>), One("mode", <<"">>),
        Merge(One("encoding", <<"a_b", "a">>), One("x", <<"c", "b_c">>)),
        Merge(One("e2", <<"1", "2", "3">>), One("mode", <<"", "1">>)), One("pubKey", <<"", "public", "own">>),
        Merge(One("t", <<"1", "g">>), One("cryptedKeySet", <<"own">>))}
  ELSE {None, One("encoding", <<"e", "u">>), One("signer", <<SigningKeys>>)}
TestSets == IF Rich
  THEN {None, One("t", <<"1", "2">>), Merge(One("t", <<"">>), One("u", <<"x_y", "x">>)), One("class", <<"q">>),
        One("encoding", <<"encoded", "a">>), Merge(One("mode", <<"", "2">>), One("t", <<"1">>)), One("cryptedKeySet", <<"aes128", "t">>)}
  ELSE {None, One("t", <<"1", "2">>)}
Algs == {[name |-> n, purpose |-> p, asym |-> b, sizes |-> s, cflags |-> cf, aflags |-> af] :
           n \in AlgNames, p \in {"crypt", "sign"}, b \in BOOLEAN, s \in IF Rich THEN {<<128>>, <<1024, 2048>>, <<>>} ELSE {<<128>>},
           cf \in {<<"--purpose=x">>} , af \in IF Rich THEN {<<>>, <<"--padding=oaep">>} ELSE {<<>>}}
Ops == {[name |-> n, keytype |-> k, gen |-> o, test |-> t] :
           n \in OpNames, k \in {"crypt", "sign"}, o \in OptSets, t \in TestSets}
RuleOpts == IF Rich
  THEN {None, One("*", <<"*">>), One("encoding", <<"encoded">>), One("encoding", <<"a_b">>), One("t", <<"1">>),
        Merge(One("cryptedKeySet", <<"aes128">>), One("pubKey", <<"public">>)),
        Merge(One("encoding", <<"encoded", "unencoded">>), One("t", <<"2">>)), One("nosuch", <<"1">>),
        Merge(One("*", <<"*">>), One("mode", <<"">>))}
  ELSE {None, One("*", <<"*">>), One("encoding", <<"e">>), Merge(One("t", <<"1">>), One("pubKey", <<"public">>))}
Rules == {[impl |-> i, op |-> o, alg |-> a, opts |-> r] :
            i \in IF Rich THEN {<<"*">>, <<"java">>, <<"cpp", "python">>} ELSE {<<"*">>, <<"java">>},
            o \in IF Rich THEN {<<"*">>, <<"sign">>, <<"encrypt", "un_v">>} ELSE {<<"*">>, <<"sign">>},
            a \in IF Rich THEN {<<"*">>, <<"aes128">>, <<"dsa1024", "a_b128">>, <<"aes">>} ELSE {<<"*">>, <<"aes128">>}, r \in RuleOpts}
Kso == [p \in {"sign", "crypt", "verify", "encrypt"} |->
          CASE p = "sign" -> [gen |-> One("cryptedKeySet", <<"", "aes128">>), test |-> Merge(One("class", <<"verifier", "signer">>), One("pubKey", <<"">>))]
            [] p = "crypt" -> [gen |-> Merge(One("pubKey", <<"">>), One("cryptedKeySet", <<"">>)), test |-> None]
            [] p = "verify" -> [gen |-> None, test |-> Merge(One("class", <<"verifier">>), One("pubKey", <<"public">>))]
            [] p = "encrypt" -> [gen |-> One("pubKey", <<"public">>), test |-> None]]
Kso2 == [Kso EXCEPT !["crypt"].test = One("class", <<"crypter">>), !["encrypt"].gen = Merge(One("pubKey", <<"public">>), One("k", <<"1", "2">>)),
                    !["verify"].test = One("pubKey", <<"public">>)]

Init == /\ g = [impls |-> <<>>, algs |-> <<>>, kso |-> Kso, ops |-> <<>>, rules |-> <<>>] /\ done = FALSE
        /\ size \in {<<1, 1, 1, 1>>}
AddImpl(x) == x \notin Range(g.impls) /\ g' = [g EXCEPT !.impls = Append(@, x)]
AddAlg(x) == x.name \notin {a.name : a \in Range(g.algs)} /\ g' = [g EXCEPT !.algs = Append(@, x)]
AddOp(x) == x.name \notin {a.name : a \in Range(g.ops)} /\ g' = [g EXCEPT !.ops = Append(@, x)]
AddRule(x) == x \notin Range(g.rules) /\ g' = [g EXCEPT !.rules = Append(@, x)]
Next == /\ UNCHANGED <<done, size>>
        /\ \/ Len(g.impls) < MaxImpls /\ \E x \in ImplNames : AddImpl(x)
           \/ Len(g.impls) = MaxImpls /\ Len(g.algs) < MaxAlgs /\ \E x \in Algs : AddAlg(x)
           \/ Len(g.algs) = MaxAlgs /\ Len(g.ops) < MaxOps /\ \E x \in Ops : AddOp(x)
           \/ Len(g.ops) = MaxOps /\ Len(g.rules) < MaxRules /\ \E x \in Rules : AddRule(x)
Spec == Init /\ [][Next]_vars

(* ------------------------- C16 on the matrix ----------------------------- *)
\* every test checks something that is generated
Grounded == \A t \in Tests(g) : \E x \in Generates(g) :
               x.impl = t.by /\ x.op = t.op /\ x.alg = t.alg /\ x.gopts = t.gopts
\* nothing ignored is run
NothingIgnored ==
  /\ \A x \in Generates(g) : ~Ignored(g, x.impl, x.op, x.alg, x.gopts)
  /\ \A t \in Tests(g) : ~Ignored(g, t.impl, t.op, t.alg, Merge(t.topts, t.gopts))
\* a public key set never produces what needs a private one
Possible == \A t \in Tests(g) : t.purpose \in {"crypt", "encrypt", "sign"} /\ (t.tp = "verify" => t.purpose = "sign")
\* ignoring more never adds a test, and a rule without conditions stops everything
Monotone == [][g'.rules # g.rules => Tests(g') \subseteq Tests(g) /\ Generates(g') \subseteq Generates(g)]_vars
StarStops == (\E r \in Range(g.rules) : r.impl = <<"*">> /\ r.op = <<"*">> /\ r.alg = <<"*">> /\ DOMAIN r.opts \subseteq {"*"})
                => Generates(g) = {} /\ Tests(g) = {}
\* full product without rules
Full == (g.rules = <<>> /\ Signers(g) # {}) => Cardinality(Generates(g)) >= Cardinality({<<i, o>> : i \in Range(g.impls), o \in {x \in Range(g.ops) : GenKeysets(g, x.keytype) # {}}})

(* ----------------------- random configurations --------------------------- *)
HInit == /\ g = [impls |-> <<>>, algs |-> <<>>, kso |-> Kso, ops |-> <<>>, rules |-> <<>>] /\ done = FALSE /\ size = <<0, 0, 0, 0>>
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : done \in BOOLEAN})
\* a rule made from one combination of the matrix: it names some of its options, all but at most one with the value they have
NearRule(t) ==
  LET all == IF "topts" \in DOMAIN t THEN Merge(t.topts, t.gopts) ELSE t.gopts
      both == IF "topts" \in DOMAIN t THEN DOMAIN t.topts \cap DOMAIN t.gopts ELSE {}
      d == Pick(SUBSET DOMAIN all) \cup Pick({{}, both})
      odd == Pick(d \cup {"-"})
      base == Pick({a.name : a \in Range(g.algs)})
      \* names that are nearly those of the combination
      near == Pick({1, 2, 3, 4, 5, 6})
  IN  [impl |-> IF near = 1 THEN <<t.impl \o "1">> ELSE Pick({<<"*">>, <<t.impl>>}),
       op |-> IF near = 2 THEN <<t.op \o "1", "*x">> ELSE Pick({<<"*">>, <<t.op>>}),
       alg |-> IF near = 3 THEN <<base, t.alg \o "0">> ELSE Pick({<<"*">>, <<t.alg>>}),
       opts |-> [x \in d |-> IF x = odd THEN <<"zz">>
                         ELSE IF x \in both /\ Pick({1, 2}) = 1 THEN <<t.topts[x]>> ELSE Pick({<<all[x]>>, <<"zz", all[x]>>})]]
RandomRule == LET m == Tests(g) \cup Generates(g)
              IN  IF m = {} \/ Pick(1..3) = 1 THEN Pick(Rules) ELSE NearRule(Pick(m))
HNext ==
  IF size = <<0, 0, 0, 0>>
  THEN \E a \in {Pick(1..3)} : \E b \in {Pick(1..3)} : \E c \in {Pick(1..2)} : \E d \in {Pick(0..3)} :
       \E k \in {Pick({1, 2})} :
         size' = <<a, b, c, d>> /\ g' = [g EXCEPT !.kso = IF k = 1 THEN Kso ELSE Kso2] /\ UNCHANGED done
  ELSE /\ UNCHANGED size
       /\ IF Len(g.algs) < size[1] THEN (\E x \in {Pick(Algs)} : IF x.name \in {a.name : a \in Range(g.algs)} THEN g' = g ELSE AddAlg(x)) /\ done' = FALSE
          ELSE IF Len(g.ops) < size[2] THEN (\E x \in {Pick(Ops)} : IF x.name \in {a.name : a \in Range(g.ops)} THEN g' = g ELSE AddOp(x)) /\ done' = FALSE
          ELSE IF Len(g.impls) < size[3] THEN (\E x \in {Pick(ImplNames)} : IF x \in Range(g.impls) THEN g' = g ELSE AddImpl(x)) /\ done' = FALSE
          ELSE IF Len(g.rules) < size[4] THEN (\E x \in {RandomRule} : IF x \in Range(g.rules) THEN g' = g ELSE AddRule(x)) /\ done' = FALSE
          ELSE ~done /\ done' = TRUE /\ g' = g
HSpec == HInit /\ [][HNext]_vars
PrintCfg == done => PrintT(<<"CFG", ToJson(g)>>)
=============================================================================
