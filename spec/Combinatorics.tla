---------------------------- MODULE Combinatorics ----------------------------
(* Helpers about permutations, subsets and factorials (core/utility/          *)
(* permutation.hpp, core/algorithm.hpp, core/math.hpp) by their definitions.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Histories

P == <<46327, 46307, 46279, 46271>>
VARIABLES h
R(S) == TLCEval(RandomElement(S))
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Inversions(p) == Cardinality({q \in Pairs(Len(p)) : p[q[1]] > p[q[2]]})
Sign(p) == IF Inversions(p) % 2 = 0 THEN 1 ELSE -1
(* a random arrangement of the elements of s *)
RECURSIVE Shuffled(_)
Shuffled(s) == IF s = <<>> THEN <<>> ELSE LET k == R(DOMAIN s) IN <<s[k]>> \o Shuffled(RemoveAt(s, k))
Ident(n) == [k \in 1..n |-> k - 1]
(* all permutations of 0 .. n-1 in lexicographic order *)
LexLess(p, q) == \E k \in DOMAIN p : p[k] < q[k] /\ \A j \in 1..(k - 1) : p[j] = q[j]
RECURSIVE AllPerms(_)
Insertions(p, x) == {InsertAt(p, k, x) : k \in 1..(Len(p) + 1)}
AllPerms(n) == IF n = 0 THEN {<<>>} ELSE UNION {Insertions(p, n - 1) : p \in AllPerms(n - 1)}
Sorted(S) == SetToSortSeq(S, LexLess)
Next_(p) == LET n == Len(p)  K == {k \in 1..(n - 1) : p[k] < p[k + 1]} IN
  IF K = {} THEN Reverse(p)
  ELSE LET k == Max(K)  j == Max({j \in (k + 1)..n : p[j] > p[k]})
           q == [p EXCEPT ![k] = p[j], ![j] = p[k]] IN SubSeq(q, 1, k) \o Reverse(SubSeq(q, k + 1, n))
IsLast(p) == \A k \in 1..(Len(p) - 1) : p[k] >= p[k + 1]
(* classes of slots linked by a column or by an index *)
RECURSIVE Closure(_, _)
Closure(S, E) == LET T == S \cup UNION {e : e \in {e \in E : e \cap S # {}}} IN IF T = S THEN S ELSE Closure(T, E)
Cycles(v, w) == LET n == Len(v)  slots == 1..(2 * n)  at(s) == IF s <= n THEN v[s] ELSE w[s - n]
                    E == {{s, s + n} : s \in 1..n} \cup {e \in {{s, t} : s, t \in slots} : \A s, t \in e : at(s) = at(t)} IN
  Cardinality({Closure({s}, E) : s \in slots})
RECURSIVE FactMod(_, _)
FactMod(n, q) == IF n = 0 THEN 1 ELSE (FactMod(n - 1, q) * n) % q
Fact(n) == [k \in DOMAIN P |-> FactMod(n, P[k])]
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (2 ^ x) + Mask(S \ {x})
Ascending(S) == SetToSortSeq(S, <)
Submasks(S) == Ascending({Mask(T) : T \in SUBSET S})

Op(call, r) == call @@ [see |-> r]
Perm(z) == TLCEval(Shuffled(Ident(R(0..9))))
DoParity(z) == LET p == TLCEval(Perm(0)) IN Op([op |-> "parity", p |-> p, how |-> R({"int", "size_t", "overwrite"})], [sign |-> Sign(p), p |-> p])
DoNext(z) == LET p == TLCEval(Perm(0)) q == Next_(p) IN Op([op |-> "next", p |-> p, odd |-> Sign(p) = -1], [more |-> ~IsLast(p), p |-> q, odd |-> Sign(q) = -1])
DoMulti(z) == LET p == TLCEval([k \in 1..R(0..7) |-> R(0..3)]) IN Op([op |-> "multi", p |-> p], [more |-> ~IsLast(p), p |-> Next_(p)])
DoAll(z) == LET n == R(0..4) L == Sorted(AllPerms(n)) IN Op([op |-> "all", n |-> n], [perms |-> L, odd |-> [k \in DOMAIN L |-> Sign(L[k]) = -1]])
(* each value twice, in any two slots *)
DoCycles(z) == LET n == R(0..6) s == TLCEval(Shuffled([k \in 1..(2 * n) |-> (k - 1) \div 2])) IN
  Op([op |-> "cycles", v |-> SubSeq(s, 1, n), w |-> SubSeq(s, n + 1, 2 * n)], [n |-> Cycles(SubSeq(s, 1, n), SubSeq(s, n + 1, 2 * n))])
DoSort(z) == LET p == TLCEval([k \in 1..R(0..9) |-> R(0..5)]) IN
  Op([op |-> "sort", p |-> p], [p |-> SortSeq(p, <), swaps |-> Inversions(p), stable |-> TRUE, odd |-> Inversions(p) % 2 = 1])
(* as asked by several threads at once *)
DoFact(z) == LET n == TLCEval([k \in 1..R(1..6) |-> R(0..70)]) IN Op([op |-> "factorial", n |-> n, threads |-> R({1, 1, 4, 8})], [all |-> [k \in DOMAIN n |-> Fact(n[k])]])
DoBits(z) == LET S == TLCEval({b \in 0..9 : R(1..2) = 1}) T == IF Cardinality(S) > 5 THEN {0, 3, 7} ELSE S m == Mask(T) L == Submasks(T) n == Len(L) IN
  Op([op |-> "bits", mask |-> m], [asc |-> L, desc |-> Reverse(L), pairs |-> [k \in 1..n |-> <<L[k], m - L[k]>>], half |-> [k \in 1..(n \div 2) |-> <<L[k], m - L[k]>>], on |-> Ascending(T)])
Do(kind) == CASE kind \in {1, 2} -> DoParity(0) [] kind \in {3, 4} -> DoNext(0) [] kind = 5 -> DoMulti(0) [] kind = 6 -> DoAll(0) [] kind \in {7, 8} -> DoCycles(0)
              [] kind = 9 -> DoSort(0) [] kind = 10 -> DoFact(0) [] OTHER -> DoBits(0)
Init == h = <<>>
Next == \/ Finish(h) /\ h' = Append(h, 0)
        \/ /\ Len(h) < Steps
           /\ \E kind \in Choose(1..11) : \E o \in {TLCEval(Do(kind))} : h' = Append(h, o)
Spec == Init /\ [][Next]_<<h>>
----------------------------------------------------------------------------
(* on all permutations of up to five elements: the successor enumerates them all, and signs multiply *)
Comp(p, q) == [k \in DOMAIN p |-> p[q[k] + 1]]
SmallInit == \E n \in 0..4 : \E p, q \in AllPerms(n) : h = <<p, q>>
SmallSpec == SmallInit /\ [][FALSE]_<<h>>
Signs == Sign(Comp(h[1], h[2])) = Sign(h[1]) * Sign(h[2])
Successor == LET L == Sorted(AllPerms(Len(h[1]))) k == CHOOSE k \in DOMAIN L : L[k] = h[1] IN Next_(h[1]) = IF k = Len(L) THEN L[1] ELSE L[k + 1]
(* the cycles of two arrangements of the same elements are those of the permutation between them *)
Orbits(p) == {Closure({x}, {{k - 1, p[k]} : k \in DOMAIN p}) : x \in {k - 1 : k \in DOMAIN p}}
Loops == Cycles(Ident(Len(h[1])), h[1]) = Cardinality(Orbits(h[1])) /\ Cycles(h[1], h[2]) = Cardinality(Orbits([k \in DOMAIN h[1] |-> h[2][CHOOSE j \in DOMAIN h[1] : h[1][j] = k - 1]]))
=============================================================================
