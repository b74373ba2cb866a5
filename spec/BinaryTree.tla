---------------------------- MODULE BinaryTree -----------------------------
(* Full binary trees (core/binary_node.hpp): a node has data and either two  *)
(* children or none.  Trees are values: a copy shares nothing with its       *)
(* original.  A visit reports nodes before, between and after their          *)
(* children, and leaves when it reaches them; a visitor that returns false   *)
(* gives up what is left of the subtree, and may replace the node it is at.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Histories

Pool == 1..3
Leaf(v) == [v |-> v, k |-> <<>>]
Node(v, l, r) == [v |-> v, k |-> <<l, r>>]
IsLeaf(t) == t.k = <<>>

RECURSIVE Size(_), Paths(_), Leaves(_), Map(_, _)
Size(t) == IF IsLeaf(t) THEN 1 ELSE 1 + Size(t.k[1]) + Size(t.k[2])
Paths(t) == IF IsLeaf(t) THEN {<<>>}
            ELSE {<<>>} \cup {<<n>> \o p : n \in {1}, p \in Paths(t.k[1])} \cup {<<n>> \o p : n \in {2}, p \in Paths(t.k[2])}
Leaves(t) == IF IsLeaf(t) THEN <<t.v>> ELSE Leaves(t.k[1]) \o Leaves(t.k[2])
Fun(f, v) == IF f = 1 THEN v + 1 ELSE (2 * v + 1) % 97
Map(t, f) == [v |-> Fun(f, t.v), k |-> IF IsLeaf(t) THEN <<>> ELSE <<Map(t.k[1], f), Map(t.k[2], f)>>]
RECURSIVE At(_, _), Set(_, _, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.k[Head(p)], Tail(p))
Set(t, p, s) == IF p = <<>> THEN s ELSE [t EXCEPT !.k[Head(p)] = Set(@, Tail(p), s)]
(* left folds *)
RECURSIVE FoldLeaves(_), FoldTrees(_)
Op(a, b) == (3 * a + b + 1) % 101
FoldLeaves(s) == IF Len(s) = 1 THEN Leaf(s[1])
  ELSE LET l == FoldLeaves(SubSeq(s, 1, Len(s) - 1)) IN Node(Op(l.v, s[Len(s)]), l, Leaf(s[Len(s)]))
FoldTrees(s) == IF Len(s) = 1 THEN s[1]
  ELSE LET l == FoldTrees(SubSeq(s, 1, Len(s) - 1)) IN Node(Op(l.v, s[Len(s)].v), l, s[Len(s)])

(* ---- visits ---- *)
Pre == 1  Post == 2  In == 4  AtLeaf == 7
Has(order, c) == (order \div c) % 2 = 1
(* how the visitor reacts: at nodes whose data is r modulo m and at moment c *)
Hit(rule, v, c) == rule.m > 0 /\ (v % rule.m) = rule.r /\ (c = AtLeaf \/ c = rule.c)
React(t, rule) == CASE rule.do = "collapse" -> Leaf(t.v)
                    [] rule.do = "grow" -> Node(t.v, Leaf(90), Leaf(91))
                    [] rule.do = "renew" -> [t EXCEPT !.v = 92]
                    [] OTHER -> t
(* one call of the visitor: what it is given, the node afterwards, whether to go on *)
Call(t, c, rule) == IF Hit(rule, t.v, c) THEN [log |-> <<<<t.v, c>>>>, t |-> React(t, rule), go |-> rule.do # "stop"]
                    ELSE [log |-> <<<<t.v, c>>>>, t |-> t, go |-> TRUE]
Quiet(t) == [log |-> <<>>, t |-> t, go |-> TRUE]
RECURSIVE Visit(_, _, _, _)
Visit(t, order, mode, rule) ==
  IF order = 0 THEN Quiet(t)
  ELSE IF IsLeaf(t) THEN IF mode = "internal" THEN Quiet(t) ELSE Call(t, AtLeaf, rule)
  ELSE LET tell(x, c) == IF mode # "leaf" /\ Has(order, c) THEN Call(x, c, rule) ELSE Quiet(x)
           a == tell(t, Pre)
       IN IF ~a.go \/ IsLeaf(a.t) THEN a
          ELSE LET b == Visit(a.t.k[1], order, mode, rule)
                   c == tell([a.t EXCEPT !.k[1] = b.t], In)
               IN IF ~c.go \/ IsLeaf(c.t) THEN [c EXCEPT !.log = a.log \o b.log \o c.log]
                  ELSE LET d == Visit(c.t.k[2], order, mode, rule)
                           e == tell([c.t EXCEPT !.k[2] = d.t], Post)
                       IN [e EXCEPT !.log = a.log \o b.log \o c.log \o d.log \o e.log]

VARIABLES trees, h
vars == <<trees, h>>
MaxSize == 15

Eq(a, b) == a = b
View(tt, log) == [tree |-> tt, size |-> [k \in Pool |-> Size(tt[k])], leaves |-> [k \in Pool |-> Leaves(tt[k])],
                  eq |-> [k \in Pool |-> [j \in Pool |-> tt[k] = tt[j]]], log |-> log]
Init == trees = [k \in Pool |-> Leaf(0)] /\ h = <<>>
Log(log, op) == h' = Append(h, op @@ [see |-> View(trees', log)])
Becomes(k, t, op) == /\ Size(t) <= MaxSize /\ trees' = [trees EXCEPT ![k] = t] /\ Log(<<>>, op @@ [k |-> k])

(* v with copies of the subtrees of j, m at p, q *)
Build(k, v, j, p, m, q, how) == Becomes(k, Node(v, At(trees[j], p), At(trees[m], q)),
     [op |-> how, v |-> v, j |-> j, p |-> p, m |-> m, q |-> q])
(* the subtree of k at p becomes that of j at q, by copying *)
Graft(k, p, j, q) == Becomes(k, Set(trees[k], p, At(trees[j], q)), [op |-> "graft", p |-> p, j |-> j, q |-> q])
(* the same by moving all of j, which then starts afresh *)
Move(k, p, j, how) == /\ k # j /\ Size(Set(trees[k], p, trees[j])) <= MaxSize
  /\ trees' = [trees EXCEPT ![k] = IF how = "movenew" THEN trees[j] ELSE Set(@, p, trees[j]), ![j] = Leaf(0)]
  /\ Log(<<>>, [op |-> how, k |-> k, p |-> p, j |-> j])
(* a subtree takes the place of one it is part of *)
Lift(k, p, q) == q # <<>> /\ Becomes(k, Set(trees[k], p, At(At(trees[k], p), q)), [op |-> "lift", p |-> p, q |-> q])
Data(k, p, v) == Becomes(k, Set(trees[k], p, [At(trees[k], p) EXCEPT !.v = v]), [op |-> "data", p |-> p, v |-> v])
Transform(k, j, p, f) == Becomes(k, Map(At(trees[j], p), f), [op |-> "map", j |-> j, p |-> p, f |-> f])
Fold(k, s) == Becomes(k, FoldLeaves(s), [op |-> "fold", s |-> s])
FoldNodes(k, s) == Becomes(k, FoldTrees([n \in DOMAIN s |-> trees[s[n]]]), [op |-> "foldnodes", s |-> s])
DoVisit(k, p, order, mode, rule, how) ==
  LET r == Visit(At(trees[k], p), order, mode, rule) IN
  /\ how = "const" => rule.do = "stop"
  /\ trees' = [trees EXCEPT ![k] = Set(@, p, r.t)]
  /\ Log(r.log, [op |-> "visit", k |-> k, p |-> p, order |-> order, mode |-> mode, rule |-> rule, how |-> how])

Rules == [m : {0, 2, 3, 5}, r : {0, 1}, c : {Pre, Post, In}, do : {"stop", "collapse", "grow", "renew"}]
Vals == 1..40
Some(k) == Choose(Paths(trees[k]))
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED trees
        \/ /\ Len(h) < Steps
           /\ \E k \in Choose(Pool), j \in Choose(Pool), m \in Choose(Pool), v \in Choose(Vals) :
              \/ \E p \in Some(j), q \in Some(m) : Build(k, v, j, IF RandomElement(1..2) = 1 THEN <<>> ELSE p, m, q, "build")
              \/ Build(k, v, j, <<>>, m, <<>>, "build")
              \/ \E p \in Some(k), q \in Some(j) : Graft(k, p, j, q)
              \/ \E p \in Some(k), how \in Choose({"move", "movenew"}) : Move(k, p, j, how)
              \/ \E p \in Some(k) : \E q \in Choose(Paths(At(trees[k], p))) : Lift(k, p, q)
              \/ \E p \in Some(k) : Data(k, p, v)
              \/ \E p \in Some(j), f \in {1, 2} : Transform(k, j, p, f)
              \/ \E n \in Choose(1..5) : Fold(k, [x \in 1..n |-> RandomElement(Vals)])
              \/ \E n \in Choose(1..3) : FoldNodes(k, [x \in 1..n |-> RandomElement(Pool)])
              \/ \E order \in Choose(0..7), mode \in Choose({"all", "leaf", "internal"}), rule \in Choose(Rules), how \in Choose({"const", "bool", "context", "boolcontext"}) : DoVisit(k, <<>>, order, mode, rule, how)
              \/ \E p \in Some(k), order \in Choose(0..7), mode \in Choose({"all", "leaf", "internal"}), rule \in Choose(Rules), how \in Choose({"const", "bool", "context", "boolcontext"}) : DoVisit(k, p, order, mode, rule, how)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The guarantees, checked exhaustively on all small trees.                  *)
RECURSIVE Shapes(_)
Shapes(d) == IF d = 0 THEN {Leaf(1)}
             ELSE LET S == Shapes(d - 1) IN S \cup {Node(1, l, r) : l \in S, r \in S}
NoRule == [m |-> 0, r |-> 0, c |-> Pre, do |-> "stop"]
RECURSIVE Number(_, _)
(* the same tree with the nodes numbered from n on, so that they can be told apart *)
Number(t, n) == IF IsLeaf(t) THEN Leaf(n) ELSE
  LET l == Number(t.k[1], n + 1) IN Node(n, l, Number(t.k[2], n + 1 + Size(l)))
Data_(t) == LET r == Visit(t, Pre, "all", NoRule).log IN [n \in DOMAIN r |-> r[n][1]]
SmallInit == trees \in [{1} -> {Number(t, 1) : t \in Shapes(Steps)}] /\ h = <<>>
SmallSpec == SmallInit /\ [][UNCHANGED vars]_vars
(* a visit in one order reports each node once, in that order *)
Once == LET t == trees[1] IN \A order \in {Pre, Post, In} :
   /\ Len(Visit(t, order, "all", NoRule).log) = Size(t)
   /\ Cardinality({x[1] : x \in ToSet(Visit(t, order, "all", NoRule).log)}) = Size(t)
   /\ Len(Visit(t, order, "leaf", NoRule).log) + Len(Visit(t, order, "internal", NoRule).log) = Size(t)
   /\ [n \in DOMAIN Leaves(t) |-> Visit(t, order, "leaf", NoRule).log[n][1]] = Leaves(t)
   /\ Visit(t, order, "all", NoRule).t = t
(* giving up at a node leaves out that node's subtree and nothing else *)
Skips == LET t == trees[1] IN \A p \in Paths(t) :
   LET s == At(t, p)  rule == [m |-> 1000, r |-> s.v, c |-> Pre, do |-> "stop"]
       full == Data_(t)
       got == LET r == Visit(t, Pre, "all", rule).log IN [n \in DOMAIN r |-> r[n][1]]
   IN got = SelectSeq(full, LAMBDA v : v <= s.v \/ v >= s.v + Size(s))
(* folding and replacing keep the leaves in order *)
Folds == LET t == trees[1] IN
   /\ Leaves(FoldLeaves(Leaves(t))) = Leaves(t)
   /\ Leaves(FoldTrees(<<t, t, t>>)) = Leaves(t) \o Leaves(t) \o Leaves(t)
   /\ \A p \in Paths(t) : Leaves(Set(t, p, At(t, p))) = Leaves(t) /\ Len(Leaves(Set(t, p, Leaf(0)))) = Len(Leaves(t)) - Len(Leaves(At(t, p))) + 1
=============================================================================
