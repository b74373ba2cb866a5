--------------------------- MODULE ContractionGame -------------------------
(***************************************************************************)
(* Every order in which the tensors of a product can be contracted         *)
(* pairwise.  All input tensors are there from the start.  A state holds   *)
(* the tensors made so far on a stack (the subtree being evaluated last on *)
(* top) and the input tensors not used yet; a step contracts two of them.  *)
(* spent: cost of the steps so far; peak: most storage needed at once.     *)
(*                                                                         *)
(* A case is a product, the extents of its indices, what is counted, and   *)
(* the order the optimizer chose, as a postfix sequence of tensors (0: the *)
(* two on top are contracted).  The chosen order is replayed by the same   *)
(* rules, and no order that TLC finds may be better.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets, Functions, TLC, Json, IOUtils

VARIABLES case, stack, loose, spent, peak, chosen
vars == <<case, stack, loose, spent, peak, chosen>>

Trace == ndJsonDeserialize(IOEnv.CASES)

Leaves(r) == 1..Len(r.t)
IndicesOf(r, ls) == UNION {ToSet(r.t[n]) : n \in ls}
\* indices of the tensor made of the leaves ls: those needed outside of it or external
Open(r, ls) ==
    IF Cardinality(ls) = 1 THEN IndicesOf(r, ls)
    ELSE {i \in IndicesOf(r, ls) : \/ \E n \in Leaves(r) \ ls : i \in ToSet(r.t[n])
                                   \/ Cardinality({n \in ls : i \in ToSet(r.t[n])}) = 1}
\* a tensor of tensors has its proto-indices as outer indices
WithProtos(r, is) == is \cup UNION {ToSet(r.idx[i].pr) : i \in is}
Volume(r, is) == IF is = {} THEN 0 ELSE FoldSet(LAMBDA i, acc : acc * r.sz[i], 1, WithProtos(r, is))
Size(r, ls) == Volume(r, Open(r, ls))
Flops(r, a, b) == Volume(r, Open(r, a) \cup Open(r, b) \cup Open(r, a \cup b))
Weight(r, ls) == IF ls \cap ToSet(r.vol) # {} THEN r.w ELSE 1
Step(r, a, b) == IF r.model = "size" THEN Size(r, a) + Size(r, b) + Size(r, a \cup b)
                 ELSE Weight(r, a \cup b) * Flops(r, a, b) + r.fw * Size(r, a \cup b)
Linked(r, a, b) == IndicesOf(r, a) \cap IndicesOf(r, b) # {}
RECURSIVE Reach(_, _)
Reach(r, s) == LET t == {n \in Leaves(r) : \E m \in s : Linked(r, {n}, {m})} \cup s IN IF t = s THEN s ELSE Reach(r, t)
Connected(r) == Reach(r, {1}) = Leaves(r)
\* outer products are left out when that was asked for and can be done
Allowed(r, a, b) == (r.prune /\ Connected(r)) => Linked(r, a, b)
Live(r, st, ls) == FoldSet(LAMBDA n, acc : acc + Size(r, {n}), 0, ls) + FoldLeft(LAMBDA acc, s : acc + Size(r, s), 0, st)
MaxOf(a, b) == IF a > b THEN a ELSE b

\* one step: the two tensors a and b leave, a \cup b comes
Contracted(r, st, ls, cost, high, a, b, rest, ls2) ==
    [stack |-> Append(rest, a \cup b), loose |-> ls2, spent |-> cost + Step(r, a, b),
     peak |-> MaxOf(high, Live(r, st, ls) + Size(r, a \cup b))]

\* the chosen order
RECURSIVE Play(_, _, _, _)
Play(r, n, g, unused) ==       \* unused: operands shifted but not contracted yet, {k} for input tensors
    IF n > Len(r.post) THEN g
    ELSE IF r.post[n] # 0 THEN Play(r, n + 1, g, Append(unused, {r.post[n]}))
    ELSE LET k == Len(unused)
             a == unused[k - 1]
             b == unused[k]
             made == SelectSeq(g.stack, LAMBDA s : s # a /\ s # b)
             g2 == Contracted(r, g.stack, g.loose, g.spent, g.peak, a, b, made, g.loose \ {m \in Leaves(r) : {m} \in {a, b}})
         IN  Play(r, n + 1, g2, Append(SubSeq(unused, 1, k - 2), a \cup b))
Start(r) == [stack |-> <<>>, loose |-> Leaves(r), spent |-> 0, peak |-> 0]

Init == /\ case \in 1..Len(Trace)
        /\ stack = <<>> /\ loose = Leaves(Trace[case]) /\ spent = 0 /\ peak = 0
        /\ chosen = LET g == Play(Trace[case], 1, Start(Trace[case]), <<>>)
                    IN  IF g.stack = <<Leaves(Trace[case])>> /\ g.loose = {} THEN <<g.spent, g.peak>>
                        ELSE IF PrintT("BEATEN " \o ToJson([case |-> case, why |-> "not an order of all the tensors"])) THEN <<0, 0>> ELSE <<0, 0>>

Better(r, s, p) ==
    IF r.model # "peak" THEN s < chosen[1]
    ELSE (chosen[2] \div 10) * 100 > (p \div 10 + 1) * (100 + r.tol) \/ (r.tol = 0 /\ chosen[2] > p) \/ (chosen[2] >= p /\ s < chosen[1])
Done(r) == loose = {} /\ Len(stack) = 1

Contract(a, b, rest, ls2) ==
    LET r == Trace[case]
        g == Contracted(r, stack, loose, spent, peak, a, b, rest, ls2)
    IN  /\ Allowed(r, a, b)
        /\ stack' = g.stack /\ loose' = g.loose /\ spent' = g.spent
        /\ peak' = IF r.model = "peak" THEN g.peak ELSE 0
        /\ UNCHANGED <<case, chosen>>
        /\ IF g.loose = {} /\ Len(g.stack) = 1 /\ Better(r, g.spent, g.peak)
           THEN PrintT("BEATEN " \o ToJson([case |-> case, why |-> "better order", chosen |-> chosen, spent |-> g.spent, peak |-> g.peak]))
           ELSE TRUE
Top == stack[Len(stack)]
\* for additive costs the order of independent steps does not matter
Next == \/ \E m, n \in loose : m < n /\ Contract({m}, {n}, stack, loose \ {m, n})
        \/ \E n \in loose : stack # <<>> /\ Contract(Top, {n}, SubSeq(stack, 1, Len(stack) - 1), loose \ {n})
        \/ Len(stack) > 1 /\ Contract(stack[Len(stack) - 1], Top, SubSeq(stack, 1, Len(stack) - 2), loose)
Spec == Init /\ [][Next]_vars

TypeOK == /\ spent >= 0 /\ peak >= 0
          /\ UNION (ToSet(stack) \cup {loose}) = Leaves(Trace[case])
=============================================================================
