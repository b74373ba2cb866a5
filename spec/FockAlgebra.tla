----------------------------- MODULE FockAlgebra -----------------------------
(***************************************************************************)
(* What a second-quantized operator expression means: a linear map on the  *)
(* space of occupation-number states.                                      *)
(*                                                                         *)
(* fermions ("F", spin orbitals; "X", spin-free): a state is the set of    *)
(*   occupied orbitals 1..M, as a bit mask; creation of an orbital counts  *)
(*   the occupied ones below it.                                           *)
(* bosons ("B"): a state is the tuple of occupation numbers, as the digits *)
(*   of a number to base 8, in the unnormalized basis  (a+)^n |0>.         *)
(*                                                                         *)
(* A normal-ordered operator has creators e.q and annihilators e.b: it is  *)
(*   q[1]+ ... q[n]+  b[m] ... b[1]    brought to normal order with        *)
(* respect to the vacuum, in which the orbitals r.V are occupied.          *)
(* In the spin-free case column c means a sum over the spin of orbitals    *)
(* q[c], b[c]; spin orbitals 2p-1 and 2p belong to orbital p.               *)
(*                                                                         *)
(* A vector is a sequence of pairs <<state, coefficient>>, to be added up. *)
(***************************************************************************)
EXTENDS TensorAlgebra

Two == [n \in 1..16 |-> 2^(n - 1)]
Eight == [n \in 1..8 |-> 8^(n - 1)]
RECURSIVE Ones(_)
Ones(s) == IF s = 0 THEN 0 ELSE (s % 2) + Ones(s \div 2)
Odd == [s \in 0..255 |-> Ones(s) % 2]

(* elementary operators: o > 0 creates orbital o, o < 0 annihilates -o *)
ApplyF(o, p) ==
    LET x == IF o > 0 THEN o ELSE -o
        occ == (p[1] \div Two[x]) % 2
        sgn == IF Odd[p[1] % Two[x]] = 1 THEN P - p[2] ELSE p[2]
    IN  IF o > 0 THEN IF occ = 1 THEN <<0, 0>> ELSE <<p[1] + Two[x], sgn % P>>
        ELSE IF occ = 0 THEN <<0, 0>> ELSE <<p[1] - Two[x], sgn % P>>
ApplyB(o, p) ==
    LET x == IF o > 0 THEN o ELSE -o
        n == (p[1] \div Eight[x]) % 8
    IN  IF o > 0 THEN <<p[1] + Eight[x], p[2]>>
        ELSE IF n = 0 THEN <<0, 0>> ELSE <<p[1] - Eight[x], (n * p[2]) % P>>
RECURSIVE ApplySeq(_, _, _, _)
ApplySeq(st, ops, n, p) ==       \* the last one acts first
    IF n = 0 \/ p[2] = 0 THEN p
    ELSE ApplySeq(st, ops, n - 1, IF st = "B" THEN ApplyB(ops[n], p) ELSE ApplyF(ops[n], p))

(* quasiparticle creators with respect to the vacuum *)
QpCre(V, o) == IF o > 0 THEN o \notin V ELSE -o \in V
\* <<normal-ordered sequence, sign>>
NormalOrder(st, V, ops) ==
    LET cre == SelectSeq(ops, LAMBDA o : QpCre(V, o))
        ann == SelectSeq(ops, LAMBDA o : ~QpCre(V, o))
        inv == Cardinality({<<m, n>> \in (1..Len(ops)) \X (1..Len(ops)) : m < n /\ ~QpCre(V, ops[m]) /\ QpCre(V, ops[n])})
    IN  << cre \o ann, IF st = "B" \/ inv % 2 = 0 THEN 1 ELSE P - 1 >>
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
(* the elementary sequences that a normal operator with orbitals q, b stands for *)
Spins(n) == [1..n -> 0..1]
Elementary(st, q, b) ==
    IF st # "X" THEN { q \o Rev([n \in 1..Len(b) |-> -b[n]]) }
    ELSE { [n \in 1..Len(q) |-> 2 * q[n] - 1 + s[n]] \o Rev([n \in 1..Len(b) |-> -(2 * b[n] - 1 + s[n])]) : s \in Spins(Len(q)) }

Pairs(vec) == SelectSeq(vec, LAMBDA p : p[2] # 0)
Merge(vec) ==      \* state -> coefficient
    FoldLeft(LAMBDA f, p : IF p[1] \in DOMAIN f THEN [f EXCEPT ![p[1]] = (@ + p[2]) % P] ELSE f @@ (p[1] :> p[2]), <<>>, vec)
Compact(vec) == IF Len(vec) < 12 THEN vec
                ELSE LET f == Merge(vec) IN FoldLeft(LAMBDA acc, s : IF f[s] = 0 THEN acc ELSE Append(acc, <<s, f[s]>>), <<>>, SetToSeq(DOMAIN f))
Scale(x, vec) == IF x = 0 THEN <<>> ELSE IF x = 1 THEN vec ELSE [n \in 1..Len(vec) |-> <<vec[n][1], (x * vec[n][2]) % P>>]

RECURSIVE HasOp(_)
HasOp(e) == CASE e.k = "t" -> e.op
              [] e.k \in {"p", "+"} -> \E n \in 1..Len(e.a) : HasOp(e.a[n])
              [] OTHER -> FALSE

----------------------------------------------------------------------------
(* r.st statistics, r.V occupied orbitals of the vacuum, r.idx index table *)
ActNormal(r, e, env, vec) ==
    LET seqs == SetToSeq(Elementary(r.st, Slots(r.idx, env, e.q), Slots(r.idx, env, e.b)))
        V == ToSet(r.V)
        no == [n \in 1..Len(seqs) |-> NormalOrder(r.st, V, seqs[n])]
        one(ops) == Pairs([n \in 1..Len(vec) |-> ApplySeq(r.st, ops[1], Len(ops[1]), <<vec[n][1], (ops[2] * vec[n][2]) % P>>)])
    IN  FoldLeft(LAMBDA acc, ops : acc \o one(ops), <<>>, no)

RECURSIVE Act(_, _, _, _, _)
RECURSIVE ActAll(_, _, _, _, _, _)
RECURSIVE ActDescend(_, _, _, _, _, _, _, _, _, _, _)
RECURSIVE ActBranches(_, _, _, _, _, _, _, _, _, _, _, _)
\* operators fs[1..n], the last one first
ActAll(r, fs, n, env, bound, vec) ==
    IF n = 0 \/ vec = <<>> THEN vec ELSE ActAll(r, fs, n - 1, env, bound, Act(r, fs[n], env, bound, vec))
\* cs: factors that are numbers; ops: factors that contain operators
ActDescend(r, cs, ops, levels, env, bound, ds, n, acc, vec, zs) ==
    LET v == Multiply(r.idx, cs, zs, levels[n + 1], env, bound, acc, 1)
    IN  IF v = 0 THEN <<>>
        ELSE IF n = Len(ds) THEN ActAll(r, ops, Len(ops), env, bound, Scale(v, vec))
        ELSE ActBranches(r, cs, ops, levels, env, bound, ds, n, v, vec, zs, r.idx[ds[n + 1]].lo + 1)
ActBranches(r, cs, ops, levels, env, bound, ds, n, v, vec, zs, x) ==
    IF x > r.idx[ds[n + 1]].lo + r.idx[ds[n + 1]].n THEN <<>>
    ELSE Compact(ActDescend(r, cs, ops, levels, [env EXCEPT ![ds[n + 1]] = x], bound, ds, n + 1, v, vec, zs)
         \o ActBranches(r, cs, ops, levels, env, bound, ds, n, v, vec, zs, x + 1))
Split(r, fs, bound) ==
    LET cs == SelectSeq(fs, LAMBDA f : ~HasOp(f))
        summed == SummedAt(r.idx, fs, bound)
        ds == Order(r.idx, cs \o fs, summed)
        occ == [m \in 1..Len(cs) |-> Occ(r.idx, cs[m])]
        ready == [m \in 1..Len(cs) |-> LET at == {q \in 1..Len(ds) : ds[q] \in occ[m]} IN IF at = {} THEN 0 ELSE Max(at)]
    IN  [cs |-> cs, ops |-> SelectSeq(fs, LAMBDA f : HasOp(f)), ds |-> ds,
         levels |-> [q \in 1..(Len(ds) + 1) |-> SetToSeq({m \in 1..Len(cs) : ready[m] = q - 1})],
         zs |-> [m \in 1..Len(cs) |-> 0]]
ActProduct(r, fs, s, env, bound, vec) ==
    LET x == Split(r, fs, bound)
    IN  ActDescend(r, x.cs, x.ops, x.levels, env, bound \cup ToSet(x.ds), x.ds, 0, s, vec, x.zs)
Act(r, e, env, bound, vec) ==
    CASE e.k = "p" -> ActProduct(r, e.a, Scalar(e.s, 1), env, bound, vec)
      [] e.k = "+" -> FoldLeft(LAMBDA acc, t : Compact(acc \o Act(r, t, env, bound, vec)), <<>>, e.a)
      [] e.k = "t" -> IF ~(Occ(r.idx, e) \subseteq bound) THEN ActProduct(r, <<e>>, 1, env, bound, vec)
                      ELSE IF e.op THEN ActNormal(r, e, env, vec)
                      ELSE Scale(Leaf(r.idx, e, env, 0), vec)
      [] OTHER -> Scale(Leaf(r.idx, e, env, 0), vec)

----------------------------------------------------------------------------
(* The vacuum state, and the vacuum expectation value *)
VacState(r) == IF r.st = "B" THEN 0 ELSE FoldLeft(LAMBDA acc, o : acc + Two[o], 0, SetToSeq(ToSet(r.V)))
Coef(vec, s) == LET f == Merge(vec) IN IF s \in DOMAIN f THEN f[s] ELSE 0
Vev(r, e, env) == Coef(Act(r, e, env, ToSet(r.ext), << <<VacState(r), 1>> >>), VacState(r))

(* The part of a vacuum expectation value in which operators are contracted *)
(* as demanded: Wick's theorem spelled out as a sum over pairings.          *)
(* ops: <<elementary operator, number of the normal operator it is from>>   *)
\* need, avoid: sets of pairs {m, n} of operator numbers
RECURSIVE PairSum(_, _, _, _, _)
Without(ops, n) == SubSeq(ops, 2, n - 1) \o SubSeq(ops, n + 1, Len(ops))
PairSum(st, V, ops, need, avoid) ==
    IF ops = <<>> THEN IF need = {} THEN 1 ELSE 0
    ELSE LET x == ops[1]
             can == {n \in 2..Len(ops) : /\ ops[n][1] = -x[1]
                                         /\ ~QpCre(V, x[1])
                                         /\ ops[n][2] # x[2]
                                         /\ {x[2], ops[n][2]} \notin avoid}
             term(n) == LET v == PairSum(st, V, Without(ops, n), need \ {{x[2], ops[n][2]}}, avoid)
                        IN  IF st = "B" \/ n % 2 = 0 THEN v ELSE (P - v) % P
         IN  FoldLeft(LAMBDA acc, n : (acc + term(n)) % P, 0, SetToSeq(can))
Tagged(no, m) == [n \in 1..Len(no) |-> <<no[n], m>>]
(* all choices of one elementary sequence for each of the operators es *)
RECURSIVE ChooseSeqs(_, _, _, _)
ChooseSeqs(r, es, env, n) ==      \* sequence of <<tagged operators, sign>>
    IF n = 0 THEN << << <<>>, 1 >> >>
    ELSE LET rest == ChooseSeqs(r, es, env, n - 1)
             here == SetToSeq({NormalOrder(r.st, ToSet(r.V), s) : s \in Elementary(r.st, Slots(r.idx, env, es[n].q), Slots(r.idx, env, es[n].b))})
         IN  FoldLeft(LAMBDA acc, h : acc \o [m \in 1..Len(rest) |-> <<rest[m][1] \o Tagged(h[1], n), (rest[m][2] * h[2]) % P>>], <<>>, here)
PairVal(r, es, env, need, avoid) ==
    LET c == ChooseSeqs(r, es, env, Len(es))
    IN  FoldLeft(LAMBDA acc, x : (acc + x[2] * PairSum(r.st, ToSet(r.V), x[1], need, avoid)) % P, 0, c)
RECURSIVE ConnDescend(_, _, _, _, _, _, _, _)
RECURSIVE ConnBranches(_, _, _, _, _, _, _, _, _)
ConnDescend(r, x, env, bound, n, acc, need, avoid) ==
    LET v == Multiply(r.idx, x.cs, x.zs, x.levels[n + 1], env, bound, acc, 1)
    IN  IF v = 0 THEN 0
        ELSE IF n = Len(x.ds) THEN (v * PairVal(r, x.ops, env, need, avoid)) % P
        ELSE ConnBranches(r, x, env, bound, n, v, need, avoid, r.idx[x.ds[n + 1]].lo + 1)
ConnBranches(r, x, env, bound, n, v, need, avoid, o) ==
    IF o > r.idx[x.ds[n + 1]].lo + r.idx[x.ds[n + 1]].n THEN 0
    ELSE (ConnDescend(r, x, [env EXCEPT ![x.ds[n + 1]] = o], bound, n + 1, v, need, avoid)
          + ConnBranches(r, x, env, bound, n, v, need, avoid, o + 1)) % P
\* e: a product of tensors and normal operators
ConnVev(r, e, env, need, avoid) ==
    LET fs == IF e.k = "p" THEN e.a ELSE <<e>>
        x == Split(r, fs, ToSet(r.ext))
    IN  ConnDescend(r, x, env, ToSet(r.ext) \cup ToSet(x.ds), 0, IF e.k = "p" THEN Scalar(e.s, 1) ELSE 1, need, avoid)
=============================================================================
