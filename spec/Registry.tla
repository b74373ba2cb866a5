----------------------------- MODULE Registry ------------------------------
(* Registries of index spaces (core/index_space_registry.hpp).  A space is a *)
(* label with a set of base states (type) and a set of quantum-number bits.  *)
(* A registry refers to a set of spaces, which its copies share and its      *)
(* clones do not, and has settings of its own: which states are occupied in  *)
(* the vacuum, in the reference, complete, open to holes, to particles.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Histories

Pool  == 1..3
Bits  == 1..4
QBits == 1..2
Types == SUBSET Bits \ {{}}
QNs   == SUBSET QBits
Keys  == <<"a", "ab", "b", "i", "j", "m", "p", "x">>          \* in the order of labels
Kinds == {"vac", "ref", "complete", "hole", "particle"}
Key   == {Keys[n] : n \in DOMAIN Keys}
Rank(k) == IF k = "" THEN 0 ELSE CHOOSE n \in DOMAIN Keys : Keys[n] = k
Null  == [key |-> "", t |-> {}, q |-> {}, n |-> 0, f |-> "?"]
Space(k, t, q, n, f) == [key |-> k, t |-> t, q |-> q, n |-> n, f |-> f]
NoSettings == [k \in Kinds |-> [d |-> {}, m |-> <<>>]]
Fail  == "!"

VARIABLES regs,   \* registries: which set of spaces, mask, settings
          sets,   \* sets of spaces
          h
vars == <<regs, sets, h>>
MaxSets == 6

Code(S) == SumSet({2 ^ (b - 1) : b \in S})
AllQ == [c \in 1..4 |-> CASE c = 1 -> {} [] c = 2 -> {1} [] c = 3 -> {2} [] OTHER -> {1, 2}]

(* ---- queries of one registry R over the spaces S ---- *)
ByKey(S, k)  == {s \in S : s.key = k}
ByAttr(S, t, q) == {s \in S : s.t = t /\ s.q = q}
KeyOf(T) == IF T = {} THEN Fail ELSE (CHOOSE s \in T : TRUE).key
IsBase(t) == Cardinality(t) = 1
(* the space meant by a setting for given quantum numbers *)
Setting(S, R, kind, q) ==
  LET x == R.set5[kind] IN
  IF q \in DOMAIN x.m THEN ByAttr(S, x.m[q], q)
  ELSE IF x.d = {} THEN {} ELSE ByAttr(S, x.d, q)
Unocc(S, R, q) ==
  LET c == Setting(S, R, "complete", q)  v == Setting(S, R, "vac", q) IN
  IF c = {} \/ v = {} THEN {}
  ELSE ByAttr(S, (CHOOSE s \in c : TRUE).t \ (CHOOSE s \in v : TRUE).t, q)
Test(T, P(_)) == IF T = {} THEN Fail ELSE P(CHOOSE s \in T : TRUE)
Occupied(S, R, s)   == IF s.key = "" THEN FALSE ELSE Test(Setting(S, R, "vac", s.q), LAMBDA v : s.t \subseteq v.t)
Unoccupied(S, R, s) == IF s.key = "" THEN FALSE ELSE Test(Setting(S, R, "vac", s.q \cap R.mask), LAMBDA v : s.t \cap v.t = {})
SomeOcc(S, R, s)    == Test(Setting(S, R, "vac", s.q), LAMBDA v : s.t \cap v.t # {})
SomeUnocc(S, R, s)  == Test(Unocc(S, R, s.q), LAMBDA v : s.t \cap v.t # {})

Meet(S, a, b) ==
  IF a = b THEN a.key
  ELSE IF a.q # b.q /\ a.q \cap b.q = {} THEN ""
  ELSE IF a.t \cap b.t = {} THEN ""
  ELSE KeyOf(ByAttr(S, a.t \cap b.t, a.q \cap b.q))
Join(S, a, b) == IF a = b THEN a.key
  ELSE IF a.q # b.q THEN Fail ELSE KeyOf(ByAttr(S, a.t \cup b.t, a.q))
MeetOK(S, a, b) == a.t \cap b.t # {} /\ (a.q = b.q \/ a.q \cap b.q # {}) /\ ByAttr(S, a.t \cap b.t, a.q \cap b.q) # {}
(* claimed where neither space is part of the other *)
JoinOK(S, a, b) == IF a.q = b.q /\ ~(a.t \subseteq b.t) /\ ~(b.t \subseteq a.t)
                   THEN ByAttr(S, a.t \cup b.t, a.q) # {} ELSE "?"

InOrder(S) == SetToSortSeq(S, LAMBDA a, b : Rank(a.key) < Rank(b.key))
Show(s) == [key |-> s.key, t |-> Code(s.t), q |-> Code(s.q), n |-> s.n, f |-> s.f]

Light(R, S) ==
  [sp |-> LET L == InOrder(S) IN [n \in DOMAIN L |-> Show(L[n])],
   bt |-> SetToSortSeq({Code(s.t) : s \in {s \in S : IsBase(s.t)}}, <),
   bs |-> LET L == SetToSortSeq({s \in S : IsBase(s.t) /\ s.q \subseteq R.mask},
                     LAMBDA a, b : Code(a.t) < Code(b.t) \/ (a.t = b.t /\ Rank(a.key) < Rank(b.key)))
          IN [n \in DOMAIN L |-> L[n].key],
   mask |-> Code(R.mask),
   dt |-> [k \in Kinds |-> Code(R.set5[k].d)]]
Full(R, S) ==
  LET L == InOrder(S) IN
  [lk |-> [k \in Key |-> KeyOf(ByKey(S, k))],
   at |-> {[key |-> s.key, t |-> Code(s.t), q |-> Code(s.q)] : s \in S},
   by |-> [k \in Kinds |-> [c \in 1..4 |-> KeyOf(Setting(S, R, k, AllQ[c]))]],
   uo |-> [c \in 1..4 |-> KeyOf(Unocc(S, R, AllQ[c]))],
   one |-> [n \in DOMAIN L |-> [base |-> IsBase(L[n].t) /\ L[n].q \subseteq R.mask,
                                po |-> Occupied(S, R, L[n]), pu |-> Unoccupied(S, R, L[n]),
                                co |-> SomeOcc(S, R, L[n]), cu |-> SomeUnocc(S, R, L[n])]],
   two |-> [n \in DOMAIN L |-> [k \in DOMAIN L |->
             [i |-> Meet(S, L[n], L[k]), u |-> Join(S, L[n], L[k]),
              vi |-> MeetOK(S, L[n], L[k]), vu |-> JoinOK(S, L[n], L[k])]]]]
View(rr, ss, k) ==
  [all |-> [j \in Pool |-> Light(rr[j], ss[rr[j].set])],
   eq |-> [j \in Pool |-> {[s EXCEPT !.n = 0, !.f = ""] : s \in ss[rr[j].set]}
                            = {[s EXCEPT !.n = 0, !.f = ""] : s \in ss[rr[k].set]}],
   this |-> Full(rr[k], ss[rr[k].set])]

Init == /\ sets = [k \in Pool |-> {Null}]
        /\ regs = [k \in Pool |-> [set |-> k, mask |-> {}, set5 |-> NoSettings]]
        /\ h = <<>>

S(k) == sets[regs[k].set]
Log(k, ok, op) == h' = Append(h, op @@ [k |-> k, see |-> [ok |-> ok] @@ View(regs', sets', k)])

(* ---- what is left of sets nobody refers to is forgotten ---- *)
Fresh(rr) == IF Len(sets) < MaxSets THEN Len(sets) + 1
             ELSE CHOOSE n \in DOMAIN sets : \A k \in Pool : rr[k].set # n
CanFresh == Len(sets) < MaxSets \/ \E n \in DOMAIN sets : \A k \in Pool : regs[k].set # n
Put(n, x) == IF n > Len(sets) THEN Append(sets, x) ELSE [sets EXCEPT ![n] = x]

(* a registry started afresh, with several spaces at once *)
Starts == <<
  {Space("i", {1}, {}, 10, "C"), Space("a", {2}, {}, 25, "C"), Space("m", {3}, {}, 3, "C"), Space("p", {1, 2}, {}, 35, "R")},
  {Space("i", {1}, {1}, 10, "C"), Space("j", {1}, {2}, 10, "C"), Space("a", {2}, {1}, 25, "C"), Space("b", {2}, {2}, 25, "R"),
   Space("p", {1, 2}, {1, 2}, 3, "C")},
  {Space("i", {1, 3}, {}, 10, "C"), Space("a", {2}, {}, 25, "R"), Space("m", {3}, {}, 3, "R"), Space("x", {1}, {}, 10, "R"),
   Space("p", {1, 2, 3}, {}, 38, "C")},
  {Space("i", {1, 2}, {1, 2}, 10, "C"), Space("a", {1}, {1}, 25, "C"), Space("b", {2}, {1, 2}, 3, "C"), Space("x", {2, 4}, {2}, 3, "C"),
   Space("m", {2}, {2}, 3, "R")} >>
Start(k, n, v, c) == /\ CanFresh
  /\ LET x == Fresh(regs) IN
       /\ sets' = Put(x, {Null} \cup Starts[n])
       /\ regs' = [regs EXCEPT ![k] = [set |-> x, mask |-> {}, set5 |-> [NoSettings EXCEPT !["vac"].d = v.t, !["complete"].d = c.t]]]
  /\ Log(k, TRUE, [op |-> "start", xs |-> SetToSeq({Show(s) : s \in Starts[n]}), v |-> v.key, c |-> c.key])

Clear(k, how) == /\ CanFresh
  /\ LET n == Fresh(regs) IN
       /\ sets' = Put(n, {Null})
       /\ regs' = [regs EXCEPT ![k] = [set |-> n, mask |-> {}, set5 |-> NoSettings]]
  /\ Log(k, TRUE, [op |-> how])
Copy(k, j, how) == /\ k # j /\ regs' = [regs EXCEPT ![k] = regs[j]] /\ UNCHANGED sets
  /\ Log(k, TRUE, [op |-> how, j |-> j])
Clone(k, j, how) == /\ k # j /\ CanFresh
  /\ LET n == Fresh(regs) IN
       /\ sets' = Put(n, S(j))
       /\ regs' = [regs EXCEPT ![k] = [regs[j] EXCEPT !.set = n]]
  /\ Log(k, TRUE, [op |-> how, j |-> j])

Tagged(k, tag, t) == IF tag = "" THEN regs ELSE [regs EXCEPT ![k].set5[tag].d = t]
Adding(k, s, tag, op) ==
  LET ok == \A x \in S(k) : x.key # s.key /\ (x.t # s.t \/ x.q # s.q) IN
  /\ sets' = IF ok THEN [sets EXCEPT ![regs[k].set] = @ \cup {s}] ELSE sets
  /\ regs' = IF ok THEN Tagged(k, tag, s.t) ELSE regs
  /\ Log(k, ok, op)
Add(k, key, t, q, n, f, tag) ==
  Adding(k, Space(key, t, q, n, f), tag,
         [op |-> "add", x |-> Show(Space(key, t, q, n, f)), tag |-> tag])

(* the size of a union or intersection: that of the base spaces in it *)
Parts(k, t, q) == {s \in S(k) : IsBase(s.t) /\ s.q = q /\ s.t \subseteq t}
Combine(k, key, labels, how, tag) ==
  LET op == [op |-> how, key |-> key, of |-> labels, tag |-> tag]
      C == {ByKey(S(k), labels[n]) : n \in DOMAIN labels}
      M == {CHOOSE s \in T : TRUE : T \in C}
      t == IF how = "union" THEN UNION {s.t : s \in M}
           ELSE {b \in Bits : \A s \in M : b \in s.t}
      q == IF how = "union" THEN UNION {s.q : s \in M}
           ELSE {b \in QBits : \A s \in M : b \in s.q}
      P == Parts(k, t, q)
      f == IF how # "union" THEN "?" ELSE IF \E s \in P : s.f = "C" THEN "C" ELSE IF \E s \in P : s.f = "?" THEN "?" ELSE "R"
  IN IF {} \in C \/ (IsBase(t) /\ P = {})
     THEN UNCHANGED <<regs, sets>> /\ Log(k, FALSE, op)
     ELSE /\ t # {}
          /\ Adding(k, Space(key, t, q, SumSet({0}) + FoldSet(LAMBDA s, a : s.n + a, 0, P), f), tag, op)

Drop(k, key, how) ==
  LET ok == how = "drop" \/ ByKey(S(k), key) # {} IN
  /\ sets' = [sets EXCEPT ![regs[k].set] = {s \in @ : s.key # key}]
  /\ UNCHANGED regs
  /\ Log(k, ok, [op |-> how, key |-> key])
Replace(k, key, t, q, n, f) ==
  LET s == Space(key, t, q, n, f)
      ok == \A x \in S(k) : x.key # key => x.t # t \/ x.q # q IN
  /\ sets' = IF ok THEN [sets EXCEPT ![regs[k].set] = {x \in @ : x.key # key} \cup {s}] ELSE sets
  /\ UNCHANGED regs
  /\ Log(k, ok, [op |-> "replace", x |-> Show(s)])

SetByType(k, kind, t, how) ==
  LET ok == \E s \in S(k) : s.t = t IN
  /\ regs' = IF ok THEN [regs EXCEPT ![k].set5[kind].d = t] ELSE regs
  /\ UNCHANGED sets
  /\ Log(k, ok, [op |-> how, kind |-> kind, t |-> Code(t)])
SetByLabel(k, kind, key) ==
  LET T == ByKey(S(k), key) IN
  /\ regs' = IF T # {} THEN [regs EXCEPT ![k].set5[kind].d = (CHOOSE s \in T : TRUE).t] ELSE regs
  /\ UNCHANGED sets
  /\ Log(k, T # {}, [op |-> "setlabel", kind |-> kind, key |-> key])
SetByMap(k, kind, m) ==
  LET ok == \A q \in DOMAIN m : ByAttr(S(k), m[q], q) # {} IN
  /\ regs' = IF ok THEN [regs EXCEPT ![k].set5[kind].m = m] ELSE regs
  /\ UNCHANGED sets
  /\ Log(k, ok, [op |-> "setmap", kind |-> kind,
                 m |-> SetToSeq({[q |-> Code(q), t |-> Code(m[q])] : q \in DOMAIN m})])
Mask(k, q) == /\ regs' = [regs EXCEPT ![k].mask = q] /\ UNCHANGED sets
              /\ Log(k, TRUE, [op |-> "mask", q |-> Code(q)])

(* types and quantum numbers worth asking for: mostly those registered *)
Near(k) == {s.t : s \in S(k)} \ {{}}
NearT(k) == IF RandomElement(1..6) = 1 \/ Near(k) = {} THEN Types ELSE Near(k)
SomeT  == IF RandomElement(1..3) = 1 THEN Types ELSE {t \in Types : Cardinality(t) = 1}
SomeQ  == IF RandomElement(1..2) = 1 THEN QNs ELSE {{}}
Labels(k) == LET known == {s.key : s \in S(k)} \ {""} IN
  IF known # {} /\ RandomElement(1..6) # 1 THEN known ELSE Key
FreeKey(k) == LET free == Key \ {s.key : s \in S(k)} IN
  IF free # {} /\ RandomElement(1..6) # 1 THEN free ELSE Key
Tuples(k) == LET L0 == Labels(k)
                 L == IF RandomElement(1..4) = 1 THEN L0 ELSE LET c == RandomElement(L0) IN
                      {l \in L0 : {s.q : s \in ByKey(S(k), l)} = {s.q : s \in ByKey(S(k), c)}} IN
  IF RandomElement(1..3) = 1 THEN {<<a, b, c>> : a \in L, b \in L, c \in L} ELSE {<<a, b>> : a \in L, b \in L}
(* a setting by quantum numbers, mostly of registered spaces *)
Maps(k) == LET D == RandomElement(SUBSET QNs \ {{}})
               F(q) == LET G == {s \in S(k) : s.q = q /\ s.t # {}} IN IF G = {} \/ RandomElement(1..8) = 1 THEN RandomElement(Types) ELSE RandomElement(G).t
               E == {q \in D : RandomElement(1..3) = 1 \/ \E s \in S(k) : s.q = q /\ s.t # {}}
               D2 == IF E = {} THEN D ELSE E
           IN {[q \in D2 |-> F(q)]}
Sizes == {1, 3, 10, 25}

Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<regs, sets>>
        \/ /\ Len(h) < Steps
           /\ \E k \in (IF Len(h) < 2 THEN {1} ELSE Choose(Pool)) :
              IF Len(h) = 0 \/ (RandomElement(1..3) = 1 /\ S(k) = {Null})
              THEN \E n \in Choose(DOMAIN Starts) : \E v \in Choose(Starts[n]), c \in Choose(Starts[n]) : Start(k, n, v, c)
              ELSE
              \/ \E key \in Choose(FreeKey(k)), t \in Choose(SomeT), q \in Choose(SomeQ), n \in Choose(Sizes), f \in Choose({"C", "R"}) : Add(k, key, t, q, n, f, "")
              \/ \E key \in Choose(FreeKey(k)), t \in Choose(SomeT), q \in Choose(SomeQ), n \in Choose(Sizes), f \in Choose({"C", "R"}) : Add(k, key, t, q, n, f, "")
              \/ \E key \in Choose(FreeKey(k)), t \in Choose(SomeT), q \in Choose(SomeQ), n \in Choose(Sizes), tag \in Choose(Kinds) : Add(k, key, t, q, n, "C", tag)
              \/ \E key \in Choose(FreeKey(k)), l \in Choose(Tuples(k)), how \in Choose({"union", "meet"}), tag \in Choose(Kinds \cup {""}) : Combine(k, key, l, how, tag)
              \/ \E key \in Choose(FreeKey(k)), l \in Choose(Tuples(k)) : Combine(k, key, l, "union", "")
              \/ \E key \in Choose(Labels(k)), how \in Choose({"remove", "drop"}) : RandomElement(1..2) = 1 /\ Drop(k, key, how)
              \/ \E key \in Choose(Labels(k)), t \in Choose(SomeT), q \in Choose(SomeQ), n \in Choose(Sizes), f \in Choose({"C", "R"}) : Replace(k, key, t, q, n, f)
              \/ \E kind \in Choose(Kinds), t \in Choose(NearT(k)), how \in Choose({"settype", "setspace"}) : SetByType(k, kind, t, how)
              \/ \E kind \in Choose(Kinds), key \in Choose(Labels(k)) : SetByLabel(k, kind, key)
              \/ \E kind \in Choose({"vac", "complete"}), key \in Choose(Labels(k)) : SetByLabel(k, kind, key)
              \/ \E kind \in Choose(Kinds) : \E m \in Maps(k) : SetByMap(k, kind, m)
              \/ \E q \in Choose(QNs) : Mask(k, q)
              \/ \E how \in Choose({"new", "clear"}) : RandomElement(1..12) = 1 /\ Clear(k, how)
              \/ \E j \in Choose(Pool), how \in Choose({"copy", "assign"}) : (S(j) # {Null} \/ RandomElement(1..6) = 1) /\ Copy(k, j, how)
              \/ \E j \in Choose(Pool), how \in Choose({"clone", "move"}) : (S(j) # {Null} \/ RandomElement(1..6) = 1) /\ Clone(k, j, how)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The guarantees, checked exhaustively over a reduced set of operations.    *)
SmallSpaces == {Space("a", {1}, {}, 3, "C"), Space("a", {1}, {1}, 3, "C"), Space("i", {2}, {}, 10, "C"), Space("x", {1, 2}, {}, 1, "R")}
SmallNext == /\ Len(h) < Steps
  /\ \E k \in 1..2 :
     \/ \E s \in SmallSpaces : Add(k, s.key, s.t, s.q, s.n, s.f, "")
     \/ \E l \in {<<"a", "i">>, <<"a", "x">>}, how \in {"union", "meet"} : Combine(k, "p", l, how, "vac")
     \/ \E key \in {"a", "x", "p"} : Drop(k, key, "remove")
     \/ \E s \in SmallSpaces : Replace(k, s.key, s.t, s.q, s.n, s.f)
     \/ \E t \in {{1}, {1, 2}} : SetByType(k, "vac", t, "settype")
     \/ SetByMap(k, "complete", ({} :> {1, 2}))
     \/ Mask(k, {1})
     \/ Copy(k, 3 - k, "copy") \/ Clone(k, 3 - k, "clone") \/ Clear(k, "clear")
SmallSpec == Init /\ [][SmallNext]_vars
SmallView == <<regs, sets>>
(* no two spaces share a label or an attribute; the null space never leaves *)
Unique == \A n \in DOMAIN sets : /\ Null \in sets[n]
   /\ \A a, b \in sets[n] : a = b \/ (a.key # b.key /\ (a.t # b.t \/ a.q # b.q))
(* union and intersection of registered spaces commute, contain or are
   contained in their arguments, and agree with their validity queries *)
Lattice == \A k \in Pool : \A a, b \in S(k) :
   /\ Meet(S(k), a, b) = Meet(S(k), b, a) /\ Join(S(k), a, b) = Join(S(k), b, a)
   /\ MeetOK(S(k), a, b) => Meet(S(k), a, b) \notin {"", Fail}
   /\ a.key # "" /\ a.t \subseteq b.t /\ a.q = b.q => Meet(S(k), a, b) = a.key
   /\ Join(S(k), a, b) = b.key /\ Meet(S(k), a, b) # Fail => b.q = a.q /\ Meet(S(k), a, b) \in {a.key, ""}
(* an operation on one registry is seen by another only through shared spaces *)
Independent == [][\A j \in Pool : LET l == h'[Len(h')] IN
   Len(h') > Len(h) /\ l.k # j => regs'[j] = regs[j] /\ (regs[l.k].set # regs[j].set => S(j)' = S(j))]_vars
(* what is rejected changes nothing *)
Rejected == [][Len(h') > Len(h) /\ ~h'[Len(h')].see.ok => regs' = regs /\ sets' = sets]_vars
=============================================================================
