----------------------------- MODULE SpinValue -----------------------------
(***************************************************************************)
(* Integrating out spin.  A case has an expression over spin-orbitals with *)
(* external indices (ext), and expressions that came out of the real code: *)
(* over spatial orbitals ("sf"), or over orbitals of spin up, spin down or *)
(* both ("so").  External index p of the case has spin out.sp[p]; 0 means  *)
(* that both are summed, together for all externals of one group.          *)
(*                                                                         *)
(* Every tensor conserves the spin of each particle; its numbers do not    *)
(* depend on spin unless out.open.  An antisymmetric tensor is the         *)
(* antisymmetrized form of the plain tensor of that name.                  *)
(***************************************************************************)
EXTENDS TensorAlgebra, Json, IOUtils

VARIABLES case, verdict
vars == <<case, verdict>>

Trace == ndJsonDeserialize(IOEnv.CASES)

RECURSIVE Read(_, _, _, _)      \* the expression e, its tensors in the given reading
Read(m, e, how, open) ==
    CASE e.k = "t" -> [e EXCEPT !.sym = IF @ = "A" THEN "X" ELSE IF how = "sf" THEN "Z" ELSE "Y"] @@ [m |-> m, open |-> open]
      [] e.k \in {"p", "+"} -> [e EXCEPT !.a = [n \in 1..Len(e.a) |-> Read(m, e.a[n], how, open)]]
      [] e.k \in {"anti", "symm", "swap"} -> [e EXCEPT !.e = Read(m, @, how, open)]
      [] OTHER -> e
RECURSIVE HasAnti(_)
HasAnti(e) == CASE e.k = "t" -> e.sym = "A"
                [] e.k \in {"p", "+"} -> \E n \in 1..Len(e.a) : HasAnti(e.a[n])
                [] e.k \in {"anti", "symm", "swap"} -> HasAnti(e.e)
                [] OTHER -> FALSE

\* an index over both spins takes values of one of them only, in expressions over spatial orbitals
Ranges(r, how) == IF how = "so" THEN r.idx ELSE [n \in 1..Len(r.idx) |-> [r.idx[n] EXCEPT !.n = IF @ = 2 * r.m THEN r.m ELSE @]]
\* the value of index n that stands for spatial orbital s with the given spin
Place(r, n, s, spin, how) == IF how = "sf" THEN s
                             ELSE IF r.idx[n].n = 2 * r.m THEN s + r.m * (spin - 1)
                             ELSE s + r.m * ((r.idx[n].lo \div r.m) % 2)
\* names[p]: the indices that stand for external p
Env(r, names, as, sp, how) ==
    [n \in 1..Len(r.idx) |-> IF \E p \in 1..Len(names) : n \in ToSet(names[p])
                             THEN LET p == CHOOSE q \in 1..Len(names) : n \in ToSet(names[q]) IN Place(r, n, as[p], sp[p], how) ELSE 0]
Value(r, e, names, as, sp, how, open) ==
    Val(Ranges(r, how), Read(r.m, e, how, open), Env(r, names, as, sp, how), UNION {ToSet(names[p]) : p \in 1..Len(names)}, 0)

\* all spins that agree with sp
Spins(o) == LET free == {g \in 1..Len(o.groups) : o.sp[o.groups[g][1]] = 0}
            IN  {[p \in 1..Len(o.sp) |-> IF o.sp[p] # 0 THEN o.sp[p] ELSE f[CHOOSE g \in free : p \in ToSet(o.groups[g])]] : f \in [free -> {1, 2}]}
Want(r, o, as) == (o.sign * FoldLeft(LAMBDA acc, sp : (acc + Value(r, r.in, [p \in 1..Len(r.ext) |-> <<r.ext[p]>>], as, sp, "so", o.open)) % P, 0, SetToSeq(Spins(o)))) % P
Got(r, o, as) == Value(r, o.e, o.ext, as, IF o.how = "sf" THEN [p \in 1..Len(o.sp) |-> 1] ELSE o.sp, o.how, o.open)

Judge(r) ==
    LET want == [n \in 1..Len(r.out) |-> [a \in 1..Len(r.as) |-> Want(r, r.out[n], r.as[a])]]
        anti == {n \in 1..Len(r.out) : r.out[n].how = "sf" /\ HasAnti(r.out[n].e)}
        bad == {n \in 1..Len(r.out) \ anti : \E a \in 1..Len(r.as) : Got(r, r.out[n], r.as[a]) # want[n][a]}
    IN  IF anti # {} THEN [v |-> "antisymmetric tensor left", at |-> Min(anti)]
        ELSE IF bad # {} THEN [v |-> "differs", at |-> Min(bad)]
        ELSE IF \A n \in 1..Len(r.out) : \A a \in 1..Len(r.as) : want[n][a] = 0 THEN [v |-> "zero", at |-> 0]
        ELSE [v |-> "same", at |-> 0]

Init == case \in 1..Len(Trace) /\ verdict = [v |-> "unread", at |-> 0]
Next == /\ verdict.v = "unread"
        /\ verdict' = Judge(Trace[case])
        /\ UNCHANGED case
        /\ IF verdict'.v = "same" THEN TRUE
           ELSE PrintT("JUDGED " \o ToJson([case |-> case, v |-> verdict'.v, at |-> verdict'.at]))
Spec == Init /\ [][Next]_vars
AllJudged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
