------------------------------ MODULE Interop ------------------------------
(* The interoperability test matrix and the runner that works through it     *)
(* (C16).  A configuration g is a record                                     *)
(*   impls   sequence of implementation names                                *)
(*   algs    sequence of [name, purpose, asym, sizes, cflags, aflags]        *)
(*   kso     key set options: purpose -> [gen, test], option -> values       *)
(*   ops     sequence of [name, keytype, gen, test]                          *)
(*   rules   sequence of [impl, op, alg, opts] (what is ignored)             *)
(* An option set is a function from option names to sequences of values.     *)
EXTENDS Base

SigningKeys == "@ALL_SIGNING_KEYS"
KeyName(a, size) == a.name \o ToString(size)

(* ------------------------------ key sets --------------------------------- *)
GenKeysets(g, purpose) ==
  UNION {UNION {
      {[name |-> KeyName(g.algs[i], g.algs[i].sizes[k]), asym |-> g.algs[i].asym, purpose |-> p] :
           p \in {purpose} \cup (IF purpose = "crypt" /\ g.algs[i].asym THEN {"encrypt"} ELSE {})}
      : k \in DOMAIN g.algs[i].sizes} : i \in {j \in DOMAIN g.algs : g.algs[j].purpose = purpose}}
\* the key sets that can check what key set ks produced
TestPurposes(ks) ==
  CASE ks.purpose = "crypt" -> {"crypt"}
    [] ks.purpose = "encrypt" -> {"crypt"}
    [] ks.purpose = "sign" -> {"sign"} \cup (IF ks.asym THEN {"verify"} ELSE {})
Signers(g) == {k.name : k \in GenKeysets(g, "sign")}

(* ------------------------------- options --------------------------------- *)
Values(g, s) == IF Range(s) = {SigningKeys} THEN Signers(g) ELSE Range(s)
\* the operation's options take precedence over those of the key set
Merge(f, h) == [x \in DOMAIN f \cup DOMAIN h |-> IF x \in DOMAIN h THEN h[x] ELSE f[x]]
RECURSIVE Product(_, _, _)
Product(g, f, names) ==
  IF names = {} THEN {EmptyFun}
  ELSE LET x == CHOOSE y \in names : TRUE
       IN  {[y \in DOMAIN h \cup {x} |-> IF y = x THEN v ELSE h[y]] :
               h \in Product(g, f, names \ {x}), v \in Values(g, f[x])}
Options(g, op, purpose, which) ==
  LET f == Merge(g.kso[purpose][which], op[which]) IN Product(g, f, DOMAIN f)

(* ---------------------------- ignored tests ------------------------------ *)
Has(s, x) == x \in Range(s) \/ "*" \in Range(s)
Matches(r, impl, op, alg, opts) ==
  /\ Has(r.impl, impl) /\ Has(r.op, op) /\ Has(r.alg, alg)
  /\ \A o \in DOMAIN r.opts \ {"*"} : o \in DOMAIN opts /\ opts[o] \in Range(r.opts[o])
Ignored(g, impl, op, alg, opts) == \E i \in DOMAIN g.rules : Matches(g.rules[i], impl, op, alg, opts)

(* ------------------------------ the matrix ------------------------------- *)
Generates(g) ==
  UNION {UNION {UNION {
     {[impl |-> im, op |-> g.ops[o].name, alg |-> ks.name, purpose |-> ks.purpose, gopts |-> f] :
        f \in {h \in Options(g, g.ops[o], ks.purpose, "gen") : ~Ignored(g, im, g.ops[o].name, ks.name, h)}}
     : ks \in GenKeysets(g, g.ops[o].keytype)} : o \in DOMAIN g.ops} : im \in Range(g.impls)}
OpOf(g, name) == CHOOSE o \in Range(g.ops) : o.name = name
KsOf(g, x) == CHOOSE ks \in GenKeysets(g, OpOf(g, x.op).keytype) : ks.name = x.alg /\ ks.purpose = x.purpose
TestsOf(g, x) ==
  UNION {UNION {
     {[impl |-> im, by |-> x.impl, op |-> x.op, alg |-> x.alg, purpose |-> x.purpose, tp |-> tp,
       gopts |-> x.gopts, topts |-> h] :
        h \in {t \in Options(g, OpOf(g, x.op), tp, "test") :
                  ~Ignored(g, im, x.op, x.alg, Merge(t, x.gopts))}}
     : tp \in TestPurposes(KsOf(g, x))} : im \in Range(g.impls)}
Tests(g) == UNION {TestsOf(g, x) : x \in Generates(g)}

(* what an implementation is told; several of the above may look the same to it *)
GenCall(x) == [impl |-> x.impl, op |-> x.op, alg |-> x.alg, gopts |-> x.gopts]
TestCall(x) == [impl |-> x.impl, by |-> x.by, op |-> x.op, alg |-> x.alg, gopts |-> x.gopts, topts |-> x.topts]

(* ----------------------------- key creation ------------------------------ *)
Crypted == "aes128"
Dir(im, name) == "keys/" \o im \o "/" \o name
Creates(g) ==
  UNION {UNION {{[impl |-> im, alg |-> i, size |-> g.algs[i].sizes[k], enc |-> b] :
                   k \in DOMAIN g.algs[i].sizes, b \in BOOLEAN} : i \in DOMAIN g.algs} : im \in Range(g.impls)}
Location(g, x) == Dir(x.impl, KeyName(g.algs[x.alg], x.size) \o (IF x.enc THEN Crypted ELSE ""))
\* a keyczart command: name and set of flags
Commands(g, x) ==
  LET a == g.algs[x.alg]
      loc == "--location=" \o Location(g, x)
      create == [cmd |-> "create", flags |-> {"--name=" \o KeyName(a, x.size), loc} \cup Range(a.cflags)]
      add == [cmd |-> "addkey", flags |-> {"--status=primary", "--size=" \o ToString(x.size), loc} \cup Range(a.aflags)
                                   \cup (IF x.enc THEN {"--crypter=" \o Dir(x.impl, Crypted)} ELSE {})]
      pub == [cmd |-> "pubkey", flags |-> {"--destination=" \o Location(g, x) \o "public", loc}]
  IN  IF x.enc THEN <<create, add>>
      ELSE <<create, add, add>> \o (IF a.asym THEN <<pub>> ELSE <<>>)
=============================================================================
