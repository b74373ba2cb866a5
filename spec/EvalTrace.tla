----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* Trace validation of evaluation through a cache.  A case is a forest, the *)
(* cache the code made for it, and a history of evaluations and resets with *)
(* what was seen after each.  The evaluator and cache of module Cache take  *)
(* the same steps; every observation must agree.                            *)
(* Values of intermediates are numbered: ref[v][c] is the value of the      *)
(* intermediate c when the volatile inputs are in their v-th state.         *)
(***************************************************************************)
EXTENDS Cache, Integers, TLC, Json, IOUtils

VARIABLES case, verdict
vars == <<case, verdict>>
Trace == ndJsonDeserialize(IOEnv.CASES)

None == [at |-> 0, why |-> ""]
Bad(n, why) == [at |-> n, why |-> why]
Start(r) == Registered(r.trees, r.least, ToSet(r.veto), r.withper)
Reg(r) == [c \in {q.c : q \in ToSet(r.reg)} |-> LET q == CHOOSE q \in ToSet(r.reg) : q.c = c IN Entry(q.max, q.per)]

Zero == [x \in {"leaf", "*", "+", "adj"} |-> 0]
EvalAll(c, val, ts) == FoldLeft(Eval, [c |-> c, n |-> Zero, calls |-> <<>>, val |-> val], ts)
Count(s, x) == Cardinality({m \in 1..Len(s) : s[m] = x})
SameCalls(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Count(s, x) = Count(t, x)

\* what must be seen of the cache c
Seen(r, c, o) ==
    CASE \E m \in 1..Len(r.reg) : o.life[m] # c[r.reg[m].c].life -> "remaining uses"
      [] \E m \in 1..Len(r.reg) : (o.data[m] # 0) # (c[r.reg[m].c].data # 0) -> "which results are held"
      [] \E m \in 1..Len(r.reg) : o.data[m] # c[r.reg[m].c].data -> "value of a cached result"
      [] o.total # FoldLeft(LAMBDA acc, q : acc + IF c[q.c].data = 0 THEN 0 ELSE r.size[q.c], 0, r.reg) -> "size of the cache"
      [] o.alive # Cardinality(Alive(c)) -> "number of live entries"
      [] OTHER -> ""
Step(r, st, n) ==
    IF st.bad # None THEN st
    ELSE LET o == r.ops[n]
         IN CASE o.op = "reset" ->
                  LET c == Reset(st.c)
                      why == IF r.batched THEN "" ELSE Seen(r, c, o)
                  IN  [st EXCEPT !.c = c, !.ver = o.ver, !.bad = IF why = "" THEN None ELSE Bad(n, why \o " after a reset")]
              [] o.op = "eval" ->
                  LET s == EvalAll(st.c, r.ref[st.ver], [m \in 1..Len(o.ts) |-> r.trees[o.ts[m]]])
                      why == CASE o.got # o.want -> "value"
                               [] ~o.inputs -> "an input was changed"
                               [] r.batched -> IF \E m \in 1..Len(r.reg) : o.data[m] \notin {0, r.ref[st.ver][r.reg[m].c]} THEN "value of a cached result" ELSE ""
                               [] o.leaf # s.n["leaf"] -> "number of inputs read"
                               [] o.prod # s.n["*"] -> "number of products computed"
                               [] o.sum # s.n["+"] + (o.acc * (Len(o.ts) - 1)) -> "number of sums computed"
                               [] o.adj # s.n["adj"] -> "number of adjoints computed"
                               [] r.hooked /\ ~SameCalls(o.calls, s.calls) -> "which intermediates were computed"
                               [] OTHER -> Seen(r, s.c, o)
                  IN  [st EXCEPT !.c = s.c, !.bad = IF why = "" THEN None ELSE Bad(n, why)]
Judge(r) ==
    LET start == Start(r)
    IN CASE \E p \in ToSet(r.same) : p[1] # p[2] -> Bad(0, "intermediates that differ in the names of indices are told apart")
         [] \E q \in ToSet(r.occ) : \E v \in 1..Len(r.ref) : q.val[v] # r.ref[v][q.c] -> Bad(0, "intermediates taken for the same have different values")
         [] Reg(r) # start -> Bad(0, "what the cache registers")
         [] OTHER -> FoldLeft(LAMBDA st, n : Step(r, st, n), [c |-> start, ver |-> 1, bad |-> None], [n \in 1..Len(r.ops) |-> n]).bad

Init == case \in 1..Len(Trace) /\ verdict = Bad(0, "unread")
Next == /\ verdict.why = "unread"
        /\ verdict' = Judge(Trace[case])
        /\ UNCHANGED case
        /\ IF verdict' = None THEN TRUE ELSE PrintT("JUDGED " \o ToJson([case |-> case, at |-> verdict'.at, why |-> verdict'.why]))
Spec == Init /\ [][Next]_vars
AllJudged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
