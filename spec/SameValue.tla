----------------------------- MODULE SameValue -----------------------------
(***************************************************************************)
(* Trace validation for everything that must preserve the value of an      *)
(* expression.  A case is one call (or chain of calls) of the real code:   *)
(* e[1] is the expression that went in, e[2], e[3], ... are expressions    *)
(* that came out.  One behaviour per case:  read -> judged.  The case is   *)
(* accepted iff every e[n] has the value of e[1] under every assignment of *)
(* the external indices, and the shape required of it, if any.              *)
(***************************************************************************)
EXTENDS TensorAlgebra, Json, IOUtils

VARIABLES case, verdict
vars == <<case, verdict>>

Trace == ndJsonDeserialize(IOEnv.CASES)

Env(r, a) == [n \in 1..Len(r.idx) |->
                IF \E m \in 1..Len(r.ext) : r.ext[m] = n
                THEN r.as[a][CHOOSE m \in 1..Len(r.ext) : r.ext[m] = n] ELSE 0]
\* f[n] = "scoped": dummy indices of e[n] need be distinct only within the product that binds them
Meant(r, n) == IF "f" \in DOMAIN r /\ r.f[n] = "scoped" THEN Scoped(r.idx, r.e[n]) ELSE r.e[n]
\* "num": a number that the code computed, for every assignment
Value(r, n, a) == IF r.e[n].k = "num" THEN r.e[n].v[a] ELSE Val(r.idx, Meant(r, n), Env(r, a), ToSet(r.ext), 0)

(* f[n], if given: the form that e[n] must have *)
Shape(f, e, e1) == CASE f = "expanded" -> Expanded(e)
                     [] f = "flat" -> Flat(e)
                     [] f = "same" -> e = e1
                     [] OTHER -> TRUE
Judge(r) ==
    LET ref == [a \in 1..Len(r.as) |-> Value(r, 1, a)]
        bad == {n \in 2..Len(r.e) : \E a \in 1..Len(r.as) : Value(r, n, a) # ref[a]}
        odd == IF "f" \in DOMAIN r THEN {n \in 2..Len(r.e) : ~Shape(r.f[n], r.e[n], r.e[1])} ELSE {}
    IN  IF bad # {} THEN [v |-> "differs", at |-> Min(bad)]
        ELSE IF odd # {} THEN [v |-> "shape", at |-> Min(odd)]
        ELSE IF \A a \in 1..Len(r.as) : ref[a] = 0 THEN [v |-> "zero", at |-> 0]
        ELSE [v |-> "same", at |-> 0]

Init == case \in 1..Len(Trace) /\ verdict = [v |-> "unread", at |-> 0]
Next == /\ verdict.v = "unread"
        /\ verdict' = Judge(Trace[case])
        /\ UNCHANGED case
        /\ IF verdict'.v = "same" THEN TRUE
           ELSE PrintT("JUDGED " \o ToJson([case |-> case, v |-> verdict'.v, at |-> verdict'.at]))
Spec == Init /\ [][Next]_vars

\* every case was judged
AllJudged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
