------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* A cache of evaluation results.  For every registered key it knows how   *)
(* often the result is expected to be used (max), how many of these uses   *)
(* are left (life), and whether the result persists (per).  data = 0: no   *)
(* result is held.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Functions, FiniteSetsExt, SequencesExt

Entry(max, per) == [max |-> max, life |-> max, per |-> per, data |-> 0]
Less(n) == IF n = 0 THEN 0 ELSE n - 1
\* a use: the last one releases the result, unless it persists
Used(e) == IF e.data = 0 \/ e.per THEN e
           ELSE [e EXCEPT !.life = Less(@), !.data = IF Less(e.life) = 0 THEN 0 ELSE @]
\* storing counts as the first use
Stored(e, v) == Used([e EXCEPT !.data = v])
Fresh(e) == [e EXCEPT !.life = e.max, !.data = IF e.per THEN @ ELSE 0]

\* c: key -> entry
Access(c, k) == IF k \in DOMAIN c THEN [c EXCEPT ![k] = Used(@)] ELSE c
Found(c, k) == IF k \in DOMAIN c THEN c[k].data ELSE 0
Store(c, k, v) == IF k \in DOMAIN c THEN [c EXCEPT ![k] = Stored(@, v)] ELSE c
Reset(c) == [k \in DOMAIN c |-> Fresh(c[k])]
Alive(c) == {k \in DOMAIN c : c[k].data # 0}

----------------------------------------------------------------------------
(* Forests.  A node is [k, c, l, r]: k = "leaf", "*", "+", "adj"; c: nodes  *)
(* with the same c compute the same intermediate (m = 1: which counts).  An adjoint has one       *)
(* operand, l.                                                              *)
Internal(n) == n.k # "leaf"
Kids(n) == IF ~Internal(n) THEN <<>> ELSE IF n.k = "adj" THEN <<n.l>> ELSE <<n.l, n.r>>
RECURSIVE Nodes(_)
Nodes(n) == {n} \cup UNION {Nodes(m) : m \in ToSet(Kids(n))}
RECURSIVE Tally(_, _)
\* uses of the intermediates when each is computed once
Tally(acc, n) ==
    IF ~Internal(n) THEN acc
    ELSE IF n.c \in DOMAIN acc THEN [acc EXCEPT ![n.c] = @ + 1]
    ELSE FoldLeft(Tally, [x \in DOMAIN acc \cup {n.c} |-> IF x = n.c THEN 1 ELSE acc[x]], Kids(n))
Uses(forest) == FoldLeft(Tally, [x \in {} |-> 0], forest)
RECURSIVE Volatile(_)
Volatile(n) == IF Internal(n) THEN \E m \in ToSet(Kids(n)) : Volatile(m) ELSE n.v
All(forest) == UNION {Nodes(t) : t \in ToSet(forest)}
\* constant intermediates that feed volatile ones
Frontier(forest) == {m.c : m \in {q \in UNION {ToSet(Kids(n)) : n \in {p \in All(forest) : Volatile(p)}} : Internal(q) /\ ~Volatile(q)}}

(* The cache a forest gets: what is used repeatedly, and (if there are      *)
(* volatile leaves) the frontier, except what is vetoed.                    *)
Registered(forest, least, veto, withper) ==
    LET u == Uses(forest)
        per == IF withper THEN Frontier(forest) ELSE {}
        keys == {c \in DOMAIN u : (u[c] >= least \/ c \in per) /\ c \notin veto}
    IN  [c \in keys |-> Entry(u[c], c \in per)]

(* Evaluation: st.c the cache, st.n[k] how many nodes of kind k were        *)
(* computed, st.calls the intermediates computed, in order.                 *)
RECURSIVE Eval(_, _)
\* val[c]: the value of the intermediate c, at present
Eval(st, n) ==
    IF ~Internal(n) THEN [st EXCEPT !.n["leaf"] = @ + 1]
    ELSE IF Found(st.c, n.c) # 0 THEN [st EXCEPT !.c = Access(@, n.c)]
    ELSE LET s == FoldLeft(Eval, st, Kids(n))
         IN  [s EXCEPT !.n[n.k] = @ + n.m, !.calls = Append(@, n.c), !.c = Store(@, n.c, st.val[n.c])]
=============================================================================
