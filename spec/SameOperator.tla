---------------------------- MODULE SameOperator ----------------------------
(***************************************************************************)
(* Trace validation for operator identities.  A case holds e[1], the       *)
(* expression that went in, and e[2], ..., what came out.  f[n] says how   *)
(* e[n] must be related to e[1]:                                           *)
(*   "op"    equal as operators (on all start states)                      *)
(*   "vev"   a number, the vacuum expectation value of e[1]                *)
(*   "conn"  a number, the part of it in which every pair of operators in  *)
(*           need is contracted and no pair in avoid is                    *)
(*   "zero"  annihilated: e[n] = 0 as an operator                          *)
(***************************************************************************)
EXTENDS FockAlgebra, Json, IOUtils

VARIABLES case, verdict
vars == <<case, verdict>>

Trace == ndJsonDeserialize(IOEnv.CASES)

Env(r, a) == [n \in 1..Len(r.idx) |->
                IF \E m \in 1..Len(r.ext) : r.ext[m] = n
                THEN r.as[a][CHOOSE m \in 1..Len(r.ext) : r.ext[m] = n] ELSE 0]
NonZero(f) == {s \in DOMAIN f : f[s] # 0}
Image(r, e, a, s) == LET f == Merge(Act(r, e, Env(r, a), ToSet(r.ext), << <<s, 1>> >>)) IN [x \in NonZero(f) |-> f[x]]
PairSet(ps) == {{ps[m][1], ps[m][2]} : m \in 1..Len(ps)}

SameOp(r, n) == \A a \in 1..Len(r.as), s \in ToSet(r.starts) : Image(r, r.e[n], a, s) = Image(r, r.e[1], a, s)
IsNumber(e) == ~HasOp(e)
SameVev(r, n) == /\ IsNumber(r.e[n])
                 /\ \A a \in 1..Len(r.as) : Vev(r, r.e[n], Env(r, a)) = Vev(r, r.e[1], Env(r, a))
SameConn(r, n) == /\ IsNumber(r.e[n])
                  /\ \A a \in 1..Len(r.as) : Vev(r, r.e[n], Env(r, a)) = ConnVev(r, r.e[1], Env(r, a), PairSet(r.need), PairSet(r.avoid))
Holds(r, n) == CASE r.f[n] = "op" -> SameOp(r, n)
                 [] r.f[n] = "vev" -> SameVev(r, n)
                 [] r.f[n] = "conn" -> SameConn(r, n)
                 [] r.f[n] = "zero" -> \A a \in 1..Len(r.as), s \in ToSet(r.starts) : Image(r, r.e[n], a, s) = <<>>
                 [] OTHER -> TRUE
Trivial(r) == \A n \in 2..Len(r.e) : r.f[n] # "op" /\ \A a \in 1..Len(r.as) : Vev(r, r.e[n], Env(r, a)) = 0
Judge(r) == LET bad == {n \in 2..Len(r.e) : ~Holds(r, n)}
            IN  IF bad # {} THEN [v |-> "differs", at |-> Min(bad)]
                ELSE IF Trivial(r) THEN [v |-> "zero", at |-> 0]
                ELSE [v |-> "same", at |-> 0]

Init == case \in 1..Len(Trace) /\ verdict = [v |-> "unread", at |-> 0]
Next == /\ verdict.v = "unread"
        /\ verdict' = Judge(Trace[case])
        /\ UNCHANGED case
        /\ IF verdict'.v = "same" THEN TRUE
           ELSE PrintT("JUDGED " \o ToJson([case |-> case, v |-> verdict'.v, at |-> verdict'.at]))
Spec == Init /\ [][Next]_vars
AllJudged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
