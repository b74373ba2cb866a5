------------------------------- MODULE Indices -------------------------------
(* A product of tensors and normal-ordered operators as far as its indices   *)
(* go: replacing indices (core/index.hpp, expressions/tensor.hpp, op.hpp,    *)
(* tensor_network/utils.hpp, utility/expr.hpp) and asking which indices an   *)
(* expression uses and leaves uncontracted (utility/indices.hpp).            *)
(*                                                                           *)
(* An index is [s: space, n: ordinal, p: proto-indices, t: protected].       *)
(* A replacement is simultaneous: an index put in place by it is protected   *)
(* from the same and later replacements until the protection is lifted.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Histories

(* spaces: 1 and 3 have plain indices only, those of 2 may have proto-indices *)
Plain == {1, 3}
Bare(i) == [s |-> i.s, n |-> i.n]
(* proto-indices are listed in one order *)
Ordered(P) == SetToSortSeq(P, LAMBDA a, b : a.s < b.s \/ (a.s = b.s /\ a.n < b.n))
Ix(s, n, P) == [s |-> s, n |-> n, p |-> Ordered({[s |-> q.s, n |-> q.n, t |-> FALSE] : q \in P}), t |-> FALSE]
Null == [s |-> 0, n |-> 0, p |-> <<>>, t |-> FALSE]
Key(i) == <<i.s, i.n, {Bare(i.p[k]) : k \in DOMAIN i.p}>>
Clean(i) == [i EXCEPT !.t = FALSE, !.p = [k \in DOMAIN @ |-> [@[k] EXCEPT !.t = FALSE]]]
Slots == {"b", "q", "x"}
All(f) == f.b \o f.q \o f.x

(* ---- replacement ---- *)
(* m: sequence of [from, to] *)
Found(m, k) == \E e \in ToSet(m) : Key(e.from) = k
Once_(m) == \A a, b \in DOMAIN m : a # b => Key(m[a].from) # Key(m[b].from)
Image(m, k) == (CHOOSE e \in ToSet(m) : Key(e.from) = k).to
ReplaceProto(q, m) == IF ~q.t /\ Found(m, <<q.s, q.n, {}>>)
   THEN LET to == Image(m, <<q.s, q.n, {}>>) IN [hit |-> TRUE, q |-> [s |-> to.s, n |-> to.n, t |-> TRUE]]
   ELSE [hit |-> FALSE, q |-> q]
Replaced(i, m) ==
  IF i.s # 0 /\ ~i.t /\ Found(m, Key(i)) THEN [hit |-> TRUE, i |-> [Image(m, Key(i)) EXCEPT !.t = TRUE]]
  ELSE LET r == [k \in DOMAIN i.p |-> ReplaceProto(i.p[k], m)]
           hit == \E k \in DOMAIN r : r[k].hit
           j == [i EXCEPT !.p = Ordered({r[k].q : k \in DOMAIN r})]
       IN IF ~hit THEN [hit |-> FALSE, i |-> i]
          ELSE IF ~i.t /\ Found(m, Key(j)) THEN [hit |-> TRUE, i |-> [Image(m, Key(j)) EXCEPT !.t = TRUE]]
          ELSE [hit |-> TRUE, i |-> j]
ReplaceIn(f, m) == [f EXCEPT !.b = [k \in DOMAIN @ |-> Replaced(@[k], m).i], !.q = [k \in DOMAIN @ |-> Replaced(@[k], m).i],
                              !.x = [k \in DOMAIN @ |-> Replaced(@[k], m).i]]
Hits(f, m) == \E k \in DOMAIN All(f) : Replaced(All(f)[k], m).hit
Unprotected(f) == [f EXCEPT !.b = [k \in DOMAIN @ |-> Clean(@[k])], !.q = [k \in DOMAIN @ |-> Clean(@[k])], !.x = [k \in DOMAIN @ |-> Clean(@[k])]]
IsUnprotected(f) == f = Unprotected(f)
RECURSIVE UntilStable(_, _)
UntilStable(f, m) == IF Hits(f, m) THEN UntilStable(ReplaceIn(f, m), m) ELSE f

(* what the library asks of a factor: no slot group names an index twice, and
   an index has no proto-index twice; the latter by construction of Ordered,
   provided that the number of proto-indices has not changed *)
Distinct(s) == \A a, b \in DOMAIN s : a # b /\ s[a].s # 0 => Key(s[a]) # Key(s[b])
Legal(f) == /\ \A k \in DOMAIN f.x : f.x[k].s # 0
            /\ f.k \in {"F", "B"} => f.x = <<>>
            /\ \A s \in Slots : Distinct(f[s])
            /\ \A k \in DOMAIN All(f) : All(f)[k].p = <<>> \/ All(f)[k].s = 2
            /\ \A k \in DOMAIN All(f) : \A a, b \in DOMAIN All(f)[k].p : a # b => Bare(All(f)[k].p[a]) # Bare(All(f)[k].p[b])
(* no two proto-indices of one index may become the same *)
Apart_(p, m) == Cardinality({Bare(ReplaceProto(p[k], m).q) : k \in DOMAIN p}) = Len(p)
Kept(f, m) == (\A k \in DOMAIN All(f) : Apart_(All(f)[k].p, m)) /\ (\A k \in DOMAIN m : Apart_(m[k].to.p, m))

(* ---- which indices are used, and which are left uncontracted ---- *)
Occurrences(f, s) == [k \in {k \in DOMAIN f[s] : f[s][k].s # 0} |-> Key(f[s][k])]
CountIn(f, s, key) == Cardinality({k \in DOMAIN f[s] : Key(f[s][k]) = key})
CountProto(f, key) == FoldSet(LAMBDA k, n : n + Cardinality({a \in DOMAIN All(f)[k].p : <<All(f)[k].p[a].s, All(f)[k].p[a].n, {}>> = key}), 0, DOMAIN All(f))
Total(fs, F(_)) == FoldSet(LAMBDA k, n : n + F(fs[k]), 0, DOMAIN fs)
Keys(fs) == UNION {UNION {{Key(i)} \cup {<<i.p[a].s, i.p[a].n, {}>> : a \in DOMAIN i.p} : i \in {j \in ToSet(All(fs[k])) : j.s # 0}} : k \in DOMAIN fs}
Counts(fs, key) == [b |-> Total(fs, LAMBDA f : CountIn(f, "b", key)), q |-> Total(fs, LAMBDA f : CountIn(f, "q", key)),
                    x |-> Total(fs, LAMBDA f : CountIn(f, "x", key)), p |-> Total(fs, LAMBDA f : CountProto(f, key))]
Plainly(key) == [s |-> key[1], n |-> key[2], p |-> Ordered(key[3])]
Used(fs) == {[i |-> Plainly(key), c |-> Counts(fs, key)] : key \in Keys(fs)}
SlotCount(fs, key) == LET c == Counts(fs, key) IN c.b + c.q + c.x
(* an index that occurs in one slot is external; no index may occur in more than two *)
TwiceAtMost(fs) == \A key \in Keys(fs) : SlotCount(fs, key) <= 2
Once(fs, s) == {Plainly(key) : key \in {key \in Keys(fs) : SlotCount(fs, key) = 1 /\ Counts(fs, key)[s] = 1}}
Uncontracted(fs) == [ub |-> Once(fs, "b"), uq |-> Once(fs, "q"), ux |-> Once(fs, "x")]
IsTensor(f) == f.k \notin {"F", "B"}
IsSymmetrizer(f) == f.k \in {"A", "S"}
In(s, i) == [slot |-> s, i |-> i]
(* the indices an expression under a (anti)symmetrizer leaves open are the
   symmetrizer's, with bra and ket exchanged, in its columns *)
Columns(f) == [k \in 1..Max({Len(f.b), Len(f.q)}) |-> [col |->
   (IF k <= Len(f.b) THEN {In("q", Plainly(Key(f.b[k])))} ELSE {}) \cup (IF k <= Len(f.q) THEN {In("b", Plainly(Key(f.q[k])))} ELSE {})]]
   \o [k \in 1..Len(f.x) |-> [col |-> {In("x", Plainly(Key(f.x[k])))}]]
External(fs) == LET S == SelectSeq(fs, IsSymmetrizer) IN
   IF S # <<>> THEN [cols |-> Columns(S[1])]
   ELSE LET u == Uncontracted(fs) IN [set |-> {In("b", i) : i \in u.ub} \cup {In("q", i) : i \in u.uq} \cup {In("x", i) : i \in u.ux}]
CanAsk(fs) == TwiceAtMost(fs) /\ \A k \in DOMAIN fs : IsTensor(fs[k])
CanAskExternal(fs) == CanAsk(fs) /\ Len(SelectSeq(fs, IsSymmetrizer)) <= 1
NotAsked == [no |-> TRUE]

VARIABLES fs, c, h
vars == <<fs, c, h>>
View(g, sc, r) == [f |-> g, c |-> sc, ret |-> r, used |-> Used(g),
                   uniq |-> IF CanAsk(g) THEN Uncontracted(g) ELSE NotAsked,
                   ext |-> IF CanAskExternal(g) THEN External(g) ELSE NotAsked,
                   each |-> [k \in DOMAIN g |-> IF CanAskExternal(<<g[k]>>) THEN [uniq |-> Uncontracted(<<g[k]>>), ext |-> External(<<g[k]>>)] ELSE NotAsked]]
(* ---- operations: what is asked for, whether it is allowed, and its outcome ---- *)
Does(op, ok, g, sc, r) == [op |-> op, ok |-> ok, fs |-> g, c |-> sc, r |-> r]
Becomes(n, g, op, ok, r) == Does(op @@ [n |-> n], ok /\ Legal(g), [fs EXCEPT ![n] = g], c, r)
Transform(n, m) == Becomes(n, ReplaceIn(fs[n], m), [op |-> "transform", m |-> m], Once_(m) /\ Kept(fs[n], m), Hits(fs[n], m))
Unprotect(n) == Becomes(n, Unprotected(fs[n]), [op |-> "reset"], TRUE, FALSE)
Apply(n, m, again) == Becomes(n, Unprotected(IF again THEN UntilStable(fs[n], m) ELSE ReplaceIn(fs[n], m)),
                              [op |-> "apply", m |-> m, again |-> again], Once_(m) /\ Kept(fs[n], m) /\ IsUnprotected(fs[n]), FALSE)
Everywhere(m, s) == LET g == [k \in DOMAIN fs |-> Unprotected(ReplaceIn(fs[k], m))] IN
   Does([op |-> "everywhere", m |-> m, s |-> s], Once_(m) /\ (\A k \in DOMAIN g : Legal(g[k]) /\ Kept(fs[k], m)) /\ c * s < 100 /\ c * s > -100,
        g, c * s, FALSE)
Put(n, f) == Does([op |-> "put", n |-> n, to |-> f], Legal(f), [fs EXCEPT ![n] = f], c, FALSE)
(* replaces factors that match target by replacement; what the replacement
   shares with target follows the match *)
SameBlock(f, g) == f.k = g.k /\ \A s \in Slots : Len(f[s]) = Len(g[s]) /\ \A k \in DOMAIN f[s] : f[s][k].s = g[s][k].s /\ Len(f[s][k].p) = Len(g[s][k].p)
SameFactor(f, g) == Unprotected(f) = Unprotected(g)
Names(f) == {Key(i) : i \in {j \in ToSet(All(f)) : j.s # 0}} \cup UNION {{<<i.p[a].s, i.p[a].n, {}>> : a \in DOMAIN i.p} : i \in ToSet(All(f))}
Adaptation(target, repl, f) == LET a == All(target)  b == All(f) IN SelectSeq([k \in DOMAIN a |-> [from |-> a[k], to |-> Clean(b[k])]], LAMBDA e : e.from.s # 0 /\ Key(e.from) \in Names(repl) /\ Key(e.from) # Key(e.to))
Adapted(target, repl, f) == Unprotected(ReplaceIn(repl, Adaptation(target, repl, f)))
Substitute(target, repl, how) ==
   LET match(f) == IF how = "same" THEN SameFactor(f, target) ELSE SameBlock(f, target)
       new(f) == IF how = "same" THEN repl ELSE Adapted(target, repl, f)
       g == [k \in DOMAIN fs |-> IF match(fs[k]) THEN new(fs[k]) ELSE fs[k]] IN
   Does([op |-> "replace", from |-> target, to |-> repl, how |-> how],
        /\ Legal(repl) /\ Legal(target) /\ IsUnprotected(target) /\ Distinct(All(target))
        /\ IsTensor(target) \/ Names(target) \cap Names(repl) = {}   \* not provided otherwise
        /\ how = "block" => \A k \in DOMAIN fs : IsUnprotected(fs[k])   \* the images of a replacement are not protected
        /\ \A k \in DOMAIN fs : match(fs[k]) => Legal(new(fs[k])) /\ (how = "same" \/ Kept(repl, Adaptation(target, repl, fs[k]))),
        g, c, FALSE)
Happens(o) == /\ fs' = o.fs /\ c' = o.c /\ h' = Append(h, o.op @@ [see |-> View(o.fs, o.c, o.r)])

(* ---- random arguments (the parameter keeps TLC from evaluating them once) ---- *)
R(S) == RandomElement(S)
RPlain(z) == TLCEval(Ix(R(Plain), R(1..4), {}))
RProtos(z) == TLCEval({[s |-> R(Plain), n |-> R(1..3)] : a \in 1..R(1..2)})
RIndex(z) == TLCEval(IF R(1..2) = 1 THEN RPlain(z) ELSE IF R(1..2) = 1 THEN Ix(2, R(1..3), {}) ELSE Ix(2, R(1..2), RProtos(z)))
RSeq(lo, hi) == TLCEval([k \in 1..R(lo..hi) |-> RIndex(k)])
Factor(k, b, q, x) == [k |-> k, b |-> b, q |-> q, x |-> x]
(* a matched slot may be empty in bra or ket of a tensor without symmetry *)
RMany(r) == TLCEval([a \in 1..r |-> RIndex(a)])
RFactorOf(k, r, e) ==
   IF k = "n" THEN LET b == RMany(r)  q == RMany(r)
                   IN Factor("n", [a \in 1..r |-> IF e[a] = 1 THEN Null ELSE b[a]], [a \in 1..r |-> IF e[a] = 2 THEN Null ELSE q[a]], RSeq(0, 1))
   ELSE IF k = "S" THEN Factor("S", RMany(r), RMany(r), <<>>)
   ELSE IF k = "A" THEN Factor("A", RSeq(1, 2), RSeq(1, 2), <<>>)
   ELSE IF k \in {"F", "B"} THEN Factor(k, RSeq(0, 2), RSeq(1, 2), <<>>)
   ELSE Factor(k, RSeq(0, 2), RSeq(1, 2), RSeq(0, 2))
RFactor(z) == TLCEval(RFactorOf(R({"t", "g", "h", "n", "F", "B", "A", "S"}), R(1..3), TLCEval([a \in 1..3 |-> R({0, 1, 2, 3})])))
(* indices present are replaced more often than others *)
Present == {i \in UNION {{Clean(j) : j \in ToSet(All(fs[k]))} : k \in DOMAIN fs} : i.s # 0}
Protos == {Ix(q.s, q.n, {}) : q \in UNION {UNION {ToSet(j.p) : j \in ToSet(All(fs[k]))} : k \in DOMAIN fs}}
RFrom(z) == LET a == R(1..4) IN IF a <= 2 /\ Present # {} THEN R(Present) ELSE IF a = 3 /\ Protos # {} THEN R(Protos) ELSE RIndex(z)
RTo(from) == IF from.s \in Plain THEN (IF R(1..3) = 1 /\ {i \in Present : i.s \in Plain} # {} THEN R({i \in Present : i.s \in Plain}) ELSE RPlain(0))
             ELSE IF R(1..3) = 1 /\ Present # {} THEN R(Present) ELSE RIndex(0)
RMap(z) == TLCEval([k \in 1..R(1..4) |-> LET from == RFrom(k) IN [from |-> from, to |-> RTo(from)]])
Scales == {1, 1, 2, -1}
N == 3
Start == Factor("t", <<Ix(1, 1, {})>>, <<Ix(2, 1, {})>>, <<>>)
Init == fs = [k \in 1..N |-> Start] /\ c = 1 /\ h = <<>>
RNew(z) == LET f == TLCEval(RFactor(z)) IN IF Legal(f) THEN f ELSE Start
Drawn(kind, n) ==
  CASE kind \in {1, 2} -> Put(n, RNew(0))
    [] kind = 3 -> Unprotect(n)
    [] kind \in {4, 5, 6} -> Transform(n, RMap(0))
    [] kind = 7 -> Apply(n, RMap(0), TRUE)
    [] kind = 8 -> Apply(n, RMap(0), FALSE)
    [] kind \in {9, 10} -> Everywhere(RMap(0), R(Scales))
    [] kind = 11 -> Substitute(Unprotected(fs[n]), RNew(0), "same")
    [] kind = 12 -> Substitute([Unprotected(fs[n]) EXCEPT !.b = RMany(Len(@))], RNew(1), "block")
    [] kind = 13 -> Substitute(Unprotected(fs[n]), [RNew(0) EXCEPT !.x = SelectSeq(Unprotected(fs[n]).b, LAMBDA i : i.s # 0)], "block")
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<fs, c>>
        \/ /\ Len(h) < Steps
           /\ \E n \in Choose(1..N), kind \in Choose(1..13) :
              \E o \in {TLCEval(Drawn(kind, n))} : \E p \in {IF o.ok THEN o ELSE Unprotect(n)} : Happens(p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The guarantees, for every factor with two slots and every map of at most
   two entries over a few indices. *)
Few == {Ix(1, 1, {}), Ix(1, 2, {}), Ix(3, 1, {}), Ix(2, 1, {}), Ix(2, 1, {[s |-> 1, n |-> 1]}), Ix(2, 1, {[s |-> 1, n |-> 2]}), Ix(2, 1, {[s |-> 1, n |-> 1], [s |-> 1, n |-> 2]})}
Pairs == {[from |-> a, to |-> b] : a \in Few, b \in Few}
Fits(e) == e.from.s \in Plain => e.to.s \in Plain
Maps == {<<e>> : e \in {e \in Pairs : Fits(e)}} \cup {m \in {<<e, f>> : e \in Pairs, f \in Pairs} : Once_(m) /\ Fits(m[1]) /\ Fits(m[2])}
Some == {[k |-> "t", b |-> <<i>>, q |-> <<j>>, x |-> <<>>] : i \in Few, j \in Few}
SmallInit == fs \in {<<f>> : f \in Some} /\ c = 1 /\ h \in Maps
SmallSpec == SmallInit /\ [][UNCHANGED vars]_vars
(* a replacement is simultaneous: exchanging two indices and exchanging them back is nothing *)
Exchange == LET m == h f == fs[1] IN
  (Len(m) = 2 /\ m[1].from = m[2].to /\ m[2].from = m[1].to /\ m[1].from.s \in Plain) =>
     (LET g == Unprotected(ReplaceIn(f, m)) IN Unprotected(ReplaceIn(g, m)) = f \/ Cardinality({Len(i.p) : i \in ToSet(All(f)) \cup ToSet(All(g))}) > 1)
(* nothing changes unless reported, and what is not in the map does not change *)
Reported == LET m == h f == fs[1] IN
  /\ ~Hits(f, m) => ReplaceIn(f, m) = f
  /\ \A k \in DOMAIN All(f) : (~Found(m, Key(All(f)[k])) /\ All(f)[k].p = <<>>) => All(ReplaceIn(f, m))[k] = All(f)[k]
(* the second pass of the same replacement leaves indices put in place alone *)
Protected == LET m == h f == fs[1] g == ReplaceIn(f, m) IN
  \A k \in DOMAIN All(g) : All(g)[k].t => Bare(All(ReplaceIn(g, m))[k]) = Bare(All(g)[k])
(* an external index is not contracted *)
Apart == LET u == Uncontracted(fs) IN u.ub \cap u.uq = {}
=============================================================================
