----------------------------- MODULE CmdLineMC -----------------------------
(* All command lines with up to MaxTok arguments out of a vocabulary, in     *)
(* every reachable world; and random sessions for the replay.                *)
EXTENDS CmdLine, Json
CONSTANTS MaxTok, MaxKeys, Rich, Depth
VARIABLES w, used, last, av, todo, hist
vars == <<w, used, last, av, todo, hist>>
T(k, f, v) == [k |-> k, f |-> f, val |-> v]
Locs == IF Rich = 2 THEN {"D1", "D2", "D3", "P1", "P2"} ELSE {"D1", "P1"}
Crypters == {"A", "B"}
Vocab == {T("flag", "location", "D1"), T("flag", "destination", "P1"), T("flag", "destination", "D1"), T("flag", "purpose", "crypt"), T("flag", "purpose", "sign"),
          T("flag", "asymmetric", "rsa"), T("flag", "status", "primary"), T("flag", "status", "bogus"),
          T("flag", "size", "abc"), T("flag", "size", "100"), T("flag", "version", "1"), T("flag", "version", "x"),
          T("flag", "crypter", "A"), T("flag", "crypter", "X"), T("noeq", "crypter", ""), T("unknown", "crypter", "A"), T("bare", "crypter", "A")}
         \cup (IF Rich >= 1 THEN {T("flag", "location", "X"), T("flag", "crypter", "B"), T("flag", "size", "256"), T("flag", "version", "2"), T("flag", "name", "n"), T("bare", "name", "n")} ELSE {})
\* some order of a set of arguments
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq2(S \ {x})
Small(S) == UNION {kSubset2 : kSubset2 \in {{{}}, {{x} : x \in S}, {{x, y} : x \in S, y \in S}}}
            \cup (IF MaxTok >= 3 THEN {{x, y, z} : x \in S, y \in S, z \in S} ELSE {})
            \cup (IF MaxTok >= 4 THEN {{x, y, z, u} : x \in S, y \in S, z \in S, u \in S} ELSE {})
Lines == {[cmd |-> c, toks |-> Seq2(s)] : c \in Commands \cup {"bogus"}, s \in Small(Vocab)}
NoLine == [cmd |-> "", toks |-> <<>>, at |-> ""]
Init == w = [x \in Locs |-> NoSet] /\ used = 0 /\ last = NoLine /\ av = NoLine /\ todo = <<>> /\ hist = <<>>
Next == \E a \in Lines :
          /\ used < MaxKeys \/ a.cmd # "addkey"
          /\ w' = Run(w, Crypters, a, used + 1)
          /\ used' = used + (IF w' # w /\ a.cmd = "addkey" THEN 1 ELSE 0)
          /\ last' = a /\ UNCHANGED <<av, todo, hist>>
Spec == Init /\ [][Next]_vars
View == <<w, used>>

(* C19 *)
Inert == [][Malformed(last') => w' = w]_vars
Confined == [][\A x \in Locs : w'[x] # w[x] => x = Target(last')]_vars
NeverPlain == [][MentionsCrypter(last') /\ last'.cmd = "addkey" => \A x \in Locs : Plain2(w'[x]) \subseteq Plain2(w[x])]_vars
\* reordering arguments that name different flags changes nothing
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Rot(s) == IF s = <<>> THEN s ELSE Tail(s) \o <<Head(s)>>
Distinct(a) == \A i, j \in DOMAIN a.toks : i # j => a.toks[i].f # a.toks[j].f
OrderFree == [][Distinct(last') => \A t \in {Rev(last'.toks), Rot(last'.toks), Rot(Rev(last'.toks))} :
                  Run(w, Crypters, [last' EXCEPT !.toks = t], used + 1) = w']_vars
\* nothing but the flags the command knows matters
Relevant == [create |-> {"location", "purpose", "name", "asymmetric"}, addkey |-> {"location", "status", "size", "crypter"},
             pubkey |-> {"location", "destination"}, promote |-> {"location", "version"}, demote |-> {"location", "version"},
             revoke |-> {"location", "version"}, genkey |-> {"location"}, bogus |-> {}]
OnlyOwn == [][~Malformed(last') =>
                Run(w, Crypters, [last' EXCEPT !.toks = SelectSeq(@, LAMBDA t : t.f \in Relevant[last'.cmd])], used + 1) = w']_vars
AllWellFormed == \A x \in Locs : WellFormed(w[x])

(* -------------------------- random sessions ------------------------------ *)
\* (depends on the state, so that TLC does not evaluate it once for all)
Pick(S) == RandomElement({x \in S : used >= 0})
Order == <<"location", "destination", "purpose", "name", "asymmetric", "status", "size", "version", "crypter">>
Chance(c, f) == IF c \notin Commands THEN 30
                ELSE IF f = "location" \/ (f = "destination" /\ c = "pubkey") \/ (f = "version" /\ c \in {"promote", "demote", "revoke"})
                        \/ (f = "purpose" /\ c = "create") THEN 96
                ELSE IF f = "crypter" /\ c = "addkey" THEN 30
                ELSE IF f \in Relevant[c] THEN 45 ELSE 7
Values(f) == CASE f = "location" -> <<"D1", "D2", "D3", "D1", "D2", "D3", "D1", "D2", "D3", "D1", "P1", "X", "F">>
               [] f = "destination" -> <<"P1", "P2", "P1", "P2", "P1", "X", "D1", "D2", "D3">>
               [] f = "purpose" -> <<"crypt", "sign", "crypt", "sign", "crypt", "sign", "CRYPT", "verify", "">>
               [] f = "name" -> <<"n1", "n2", "n3", "n4", "n5", "n6", "n7">>
               [] f = "asymmetric" -> <<"rsa", "dsa", "RSA", "DSA", "Rsa">>
               [] f = "status" -> <<"primary", "active", "PRIMARY", "aCTIVE", "inactive", "INACTIVE", "active", "Primary", "primary", "bogus", "">>
               [] f = "size" -> <<"128", "192", "256", "1024", "1024", "2048", "100", "64", "abc", "", "12x", "1.5", "0x80", "None">>
               [] f = "version" -> <<"1", "2", "3", "4", "1", "2", "3", "2", "5", "99", "0", "abc", "", "1x", "1.0">>
               [] f = "crypter" -> <<"A", "A", "A", "A", "B", "H", "X", "E">>
Kind(n) == CASE n = 1 -> "unknown" [] n = 2 -> "noeq" [] n = 3 -> "bare" [] OTHER -> "flag"
InsertAt(s, i, t) == SubSeq(s, 1, i) \o <<t>> \o SubSeq(s, i + 1, Len(s))
\* what would make sense for the key set at x
Str(n) == CHOOSE s \in DOMAIN NumOf : NumOf[s] = n
Sensible(x, f) ==
  LET d == w[x] IN
  CASE f = "location" -> {x}
    [] f = "version" -> {Str(v) : v \in {y \in Versions(d) : y <= 5}}
    [] f = "size" -> {Str(n) : n \in Sizes(d.type) \ {512, 768, 4096}}
    [] f = "crypter" -> IF d.enc THEN {d.vers[v].seal : v \in Versions(d)} ELSE IF Versions(d) = {} THEN {"A", "B"} ELSE {}
    [] OTHER -> {}
\* a number with something before or after it is no number
Mangle(f, v) == IF f \notin {"version", "size"} THEN v
                ELSE Pick({v \o t : t \in {",1", ",2", "x", " 2", ".0", ".", "e0", "-1", ";", "/2", "k", "L", "%"}}
                          \cup {t \o v : t \in {"v", "#", "=", "x", "1,", "0x", "--", ".", "$", "\""}})
NeedsCrypter(x) == w[x].enc
HNext ==
  IF av.cmd = ""
  THEN \E n \in {Pick(1..100)}, x \in {Pick({"D1", "D2", "D3"})} :
       LET m == IF w[x].meta THEN n ELSE (n + 3) \div 4
           c == CASE m <= 18 -> "create" [] m <= 52 -> "addkey" [] m <= 65 -> "promote" [] m <= 78 -> "demote"
                  [] m <= 88 -> "revoke" [] m <= 97 -> "pubkey" [] OTHER -> "bogus"
       IN  /\ av' = [cmd |-> IF w[x].meta /\ c = "create" /\ n > 4 THEN "addkey" ELSE c, toks |-> <<>>, at |-> x]
           /\ todo' = SelectSeq(Order, LAMBDA f : Pick(1..100) <= IF f = "crypter" /\ c = "addkey" /\ NeedsCrypter(x) THEN 92
                                                                  ELSE IF f = "crypter" /\ Versions(w[x]) # {} THEN 6 ELSE Chance(c, f))
                      \o SelectSeq(<<"crypter", "location", "status", "version">>, LAMBDA f : Pick(1..100) <= 3)
           /\ UNCHANGED <<w, used, last, hist>>
  ELSE IF todo # <<>>
  THEN LET f == Head(todo) IN
       \E i \in {Pick(0..Len(av.toks))}, n \in {Pick(1..60)}, j \in {Pick(DOMAIN Values(f))}, k \in {Pick(1..100)} :
       \E v \in {IF k <= 85 /\ Sensible(av.at, f) # {} THEN (IF k <= 75 THEN Pick(Sensible(av.at, f)) ELSE Mangle(f, Pick(Sensible(av.at, f))))
                 ELSE Values(f)[j]} :
       /\ av' = [av EXCEPT !.toks = InsertAt(@, i, T(Kind(n), f, v))]
       /\ todo' = Tail(todo) /\ UNCHANGED <<w, used, last, hist>>
  ELSE LET a == [cmd |-> av.cmd, toks |-> av.toks] IN
       /\ hist' = Append(hist, a) /\ av' = NoLine /\ last' = a
       /\ w' = Run(w, Crypters, a, used + 1) /\ used' = used + 1 /\ UNCHANGED todo
HSpec == Init /\ [][HNext]_vars
PrintHist == (Len(hist) = Depth /\ av.cmd = "") => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
