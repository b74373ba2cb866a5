----------------------------- MODULE OperatorMap -----------------------------
(***************************************************************************)
(* What the index-free operators of many-body theory stand for: linear     *)
(* maps on the space of occupation-number states; and judgement of what    *)
(* the code makes of expressions built from them.                          *)
(*                                                                         *)
(* r.ops is a table of abstract operators.  Entry o creates o.nc and       *)
(* annihilates o.na particles, in orbitals o.cl.lo+1..o.cl.lo+o.cl.n and   *)
(* o.al.lo+1..o.al.lo+o.al.n, as a string in normal order with respect to  *)
(* the vacuum, with an arbitrary coefficient for every choice of orbitals: *)
(*   o.s * SUM t(c; a) { c1+ .. a1 }   over all c, a                       *)
(* where t has the symmetry the theory gives it (o.sym, o.bk, o.cs) and    *)
(* o.s is the agreed normalization.  o.adj: the adjoint of that operator.  *)
(*                                                                         *)
(* Expressions are those of TensorAlgebra, with leaves [k |-> "o", n |->   *)
(* entry].  A case holds checks; c.how says what has to hold of c.e, the   *)
(* result, and c.of, the operator expression:                              *)
(*   "map"    they are the same operator                                   *)
(*   "vev"    c.e is a number, the vacuum expectation value of c.of        *)
(*   "ref"    c.e is a number, the expectation value of c.of in the state  *)
(*            r.phi, whose density matrices are the tensors r.rdm          *)
(*   "lie"    c.e is the operator A + [A,B] + [[A,B],B]/2 + ... to order   *)
(*            c.n, or, with c.u, with B replaced by B - B^+                *)
(*   "series" c.e is a number, the sum of vacuum expectation values: for   *)
(*            every p in c.parts that of p.of times the operator of "lie", *)
(*            commuted with each of p.cm, times p.right                    *)
(*   "moves"  changes of particle numbers predicted for c.of: an interval  *)
(*            for creators and annihilators in each base space, and        *)
(*            which ranks of excitation can be reached from the vacuum, or *)
(*            lead to it                                                   *)
(***************************************************************************)
EXTENDS FockAlgebra, Json, IOUtils

VARIABLES case, verdict
vars == <<case, verdict>>

Trace == ndJsonDeserialize(IOEnv.CASES)

----------------------------------------------------------------------------
(* the map of an abstract operator *)
RECURSIVE Ascending(_, _, _)
Ascending(lo, hi, k) ==      \* sequences of k increasing numbers from lo..hi
    IF k = 0 THEN << <<>> >>
    ELSE IF lo > hi THEN <<>>
    ELSE [n \in 1..Len(Ascending(lo + 1, hi, k - 1)) |-> <<lo>> \o Ascending(lo + 1, hi, k - 1)[n]] \o Ascending(lo + 1, hi, k)
RECURSIVE Tuples(_, _, _)
Tuples(lo, hi, k) == IF k = 0 THEN << <<>> >>
                     ELSE FoldLeft(LAMBDA acc, t : acc \o [n \in 1..(hi - lo + 1) |-> Append(t, lo + n - 1)], <<>>, Tuples(lo, hi, k - 1))
Fact(n) == FoldLeft(LAMBDA acc, k : acc * k, 1, [k \in 1..n |-> k])
Conj(e) == IF e.k = "^" THEN [e EXCEPT !.cj = ~@] ELSE e
\* sequence of <<elementary operators in normal order, coefficient>>
Terms(r, o) ==
    LET anti == o.sym = "A"
        of(l, k) == IF anti THEN Ascending(l.lo + 1, l.lo + l.n, k) ELSE Tuples(l.lo + 1, l.lo + l.n, k)
        cs == TLCEval(of(o.cl, o.nc))
        as == TLCEval(of(o.al, o.na))
        w == (Leaf(r.idx, o.s, <<>>, 0) * (IF anti THEN Fact(o.nc) * Fact(o.na) ELSE 1)) % P
        t == [h |-> o.h, sym |-> o.sym, bk |-> o.bk, cs |-> o.cs, adj |-> FALSE]
        V == ToSet(r.V)
        \* the adjoint swaps what is created and annihilated and conjugates the coefficient
        term(c, a) == LET val == (w * (IF o.nt THEN 1 ELSE TensorVal(t, c, a, o.x, IF o.adj THEN -1 ELSE 1))) % P
                          es == SetToSeq(IF o.adj THEN Elementary(r.st, a, c) ELSE Elementary(r.st, c, a))
                      IN  [n \in 1..Len(es) |-> LET q == NormalOrder(r.st, V, es[n]) IN <<q[1], (q[2] * val) % P>>]
    IN  FoldLeft(LAMBDA acc, c : FoldLeft(LAMBDA acc2, a : acc2 \o term(c, a), acc, as), <<>>, cs)
States(r) == 0..(2^(r.m) - 1)
Gathered(vec) == LET f == Merge(vec) IN FoldLeft(LAMBDA acc, s : IF f[s] = 0 THEN acc ELSE Append(acc, <<s, f[s]>>), <<>>, SetToSeq(DOMAIN f))
Map(r, o) == LET ts == TLCEval(SelectSeq(Terms(r, o), LAMBDA t : t[2] # 0))
             IN  TLCEval([s \in States(r) |-> Gathered(Pairs([n \in 1..Len(ts) |-> ApplySeq(r.st, ts[n][1], Len(ts[n][1]), <<s, ts[n][2]>>)]))])
Transposed(r, M) == TLCEval([s \in States(r) |-> FoldLeft(LAMBDA acc, x : acc \o [n \in 1..Len(SelectSeq(M[x], LAMBDA p : p[1] = s)) |-> <<x, SelectSeq(M[x], LAMBDA p : p[1] = s)[n][2]>>], <<>>, SetToSeq(States(r)))])

RECURSIVE HasAbstract(_)
HasAbstract(e) == CASE e.k = "o" -> TRUE
                    [] e.k \in {"p", "+"} -> \E n \in 1..Len(e.a) : HasAbstract(e.a[n])
                    [] OTHER -> FALSE
Through(M, vec) == Gathered(FoldLeft(LAMBDA acc, p : acc \o Scale(p[2], M[p[1]]), <<>>, vec))
RECURSIVE Move(_, _, _, _)
RECURSIVE MoveAll(_, _, _, _, _)
MoveAll(r, M, fs, n, vec) == IF n = 0 \/ vec = <<>> THEN vec ELSE MoveAll(r, M, fs, n - 1, Move(r, M, fs[n], vec))
Move(r, M, e, vec) ==
    IF ~HasAbstract(e) THEN Gathered(Act(r, e, r.env, ToSet(r.ext), vec))
    ELSE CASE e.k = "o" -> Through(M[e.n], vec)
           [] e.k = "p" -> MoveAll(r, M, e.a, Len(e.a), Scale(Scalar(e.s, 1), vec))
           [] e.k = "+" -> Gathered(FoldLeft(LAMBDA acc, t : acc \o Move(r, M, t, vec), <<>>, e.a))
----------------------------------------------------------------------------
(* similarity transformation *)
Minus(a, b) == Gathered(a \o Scale(P - 1, b))
Generator(r, M, c, vec) == IF c.u THEN Minus(Move(r, M, c.B, vec), Move(r, M, c.Bx, vec)) ELSE Move(r, M, c.B, vec)
RECURSIVE Nested(_, _, _, _, _)       \* [[A,B],..B] k times, over k!
Nested(r, M, c, k, vec) ==
    IF vec = <<>> THEN <<>>
    ELSE IF k = 0 THEN Move(r, M, c.A, vec)
    ELSE Scale(Inv(k), Minus(Nested(r, M, c, k - 1, Generator(r, M, c, vec)), Generator(r, M, c, Nested(r, M, c, k - 1, vec))))
Lie(r, M, c, vec) == Gathered(FoldLeft(LAMBDA acc, k : acc \o Nested(r, M, c, k - 1, vec), <<>>, [k \in 1..(c.n + 1) |-> k]))

RECURSIVE Commuted(_, _, _, _, _)     \* [..[[Lie, x1], x2]..], the first k of p.cm
Commuted(r, M, p, k, vec) ==
    IF vec = <<>> THEN <<>>
    ELSE IF k = 0 THEN Lie(r, M, p, vec)
    ELSE Minus(Commuted(r, M, p, k - 1, Move(r, M, p.cm[k], vec)), Move(r, M, p.cm[k], Commuted(r, M, p, k - 1, vec)))

----------------------------------------------------------------------------
(* expectation values *)
Vacuum(r) == << <<VacState(r), 1>> >>
IsNumber(e) == ~HasOp(e) /\ ~HasAbstract(e)
Number(r, e) == Coef(Act(r, e, r.env, ToSet(r.ext), Vacuum(r)), VacState(r))
Along(phi, vec) == LET f == Merge(vec) IN FoldLeft(LAMBDA acc, p : (acc + p[2] * (IF p[1] \in DOMAIN f THEN f[p[1]] ELSE 0)) % P, 0, phi)
Mean(r, vec) == (Along(r.phi, vec) * Inv(Along(r.phi, r.phi))) % P
\* density matrix: lower indices annihilate, upper ones create
Density(r, b, q) ==
    LET es == SetToSeq(Elementary(r.st, q, b))
    IN  Mean(r, FoldLeft(LAMBDA acc, ops : acc \o Pairs([n \in 1..Len(r.phi) |-> ApplySeq(r.st, ops, Len(ops), r.phi[n])]), <<>>, es))
Digits(d, n) == [m \in 1..Len(d) |-> d[m].lo + 1 + ((n \div FoldLeft(LAMBDA acc, x : acc * x.n, 1, SubSeq(d, 1, m - 1))) % d[m].n)]
RECURSIVE Filled(_, _)
Filled(r, e) ==
    CASE e.k = "t" /\ ~e.op /\ e.h \in ToSet(r.rdm) ->
            (LET sl == e.b \o e.q
                 d == [m \in 1..Len(sl) |-> [lo |-> r.idx[sl[m]].lo, n |-> r.idx[sl[m]].n]]
                 size == FoldLeft(LAMBDA acc, x : acc * x.n, 1, d)
             IN  [k |-> "tab", sl |-> sl, d |-> d, op |-> FALSE,
                  tab |-> [n \in 1..size |-> Density(r, SubSeq(Digits(d, n - 1), 1, Len(e.b)), SubSeq(Digits(d, n - 1), Len(e.b) + 1, Len(sl)))]])
      [] e.k \in {"p", "+"} -> [e EXCEPT !.a = [n \in 1..Len(e.a) |-> Filled(r, e.a[n])]]
      [] OTHER -> e

----------------------------------------------------------------------------
(* predicted changes *)
Within(iv, n) == iv[1] <= n /\ n <= iv[2]
Holes(r, s) == {o \in ToSet(r.V) : (s \div Two[o]) % 2 = 0}
Particles(r, s) == {o \in (1..r.m) \ ToSet(r.V) : (s \div Two[o]) % 2 = 1}
InRange(l, S) == {o \in S : o > l.lo /\ o <= l.lo + l.n}
\* spin-orbitals of a range of orbitals
Spread(r, l) == IF r.st = "X" THEN [lo |-> 2 * l.lo, n |-> 2 * l.n] ELSE l
\* up: the predicted operator makes s from the vacuum; otherwise it makes the vacuum from s
Foreseen(r, c, s, up) ==
    \/ c.phys /\ LET k == Cardinality(Particles(r, s)) IN Within(c.iv[1], IF up THEN k ELSE 0) /\ Within(c.iv[2], IF up THEN 0 ELSE k)
    \/ /\ ~c.phys
       /\ \A x \in 1..Len(c.base) :
            LET l == Spread(r, c.base[x])
                h == Cardinality(InRange(l, Holes(r, s)))
                p == Cardinality(InRange(l, Particles(r, s)))
            IN  /\ Within(c.iv[2 * x - 1], IF up THEN p ELSE h)
                /\ Within(c.iv[2 * x], IF up THEN h ELSE p)
Rank(r, c, s) ==      \* -1: not an excitation among active orbitals
    LET H == Holes(r, s)
        Q == Particles(r, s)
    IN  IF /\ Cardinality(H) = Cardinality(Q)
           /\ H = InRange(Spread(r, c.hole), H) /\ Q = InRange(Spread(r, c.particle), Q)
        THEN Cardinality(H) ELSE -1
Ranked(to, upto, k) == \/ k < 0
                       \/ /\ k + 1 <= Len(to) => to[k + 1]
                          /\ \A j \in 1..Len(upto) : k <= j - 1 => upto[j]
Moves(r, M, c) ==
    LET top == Merge(Move(r, M, c.of, Vacuum(r)))
        to == {s \in DOMAIN top : top[s] # 0}
        from == {s \in ToSet(r.starts) : Coef(Move(r, M, c.of, << <<s, 1>> >>), VacState(r)) # 0}
    IN  /\ \A s \in to : Foreseen(r, c, s, TRUE) /\ (c.phys \/ Ranked(c.raises, c.raisesup, Rank(r, c, s)))
        /\ \A s \in from : Foreseen(r, c, s, FALSE) /\ (c.phys \/ Ranked(c.lowers, c.lowersup, Rank(r, c, s)))
        /\ VacState(r) \in to => c.vac

----------------------------------------------------------------------------
SameMaps(r, M, c) == \A s \in ToSet(r.starts) : Merge(Move(r, M, c.e, << <<s, 1>> >>)) = Merge(Move(r, M, c.of, << <<s, 1>> >>))
Want(r, M, c) == CASE c.how = "vev" -> Coef(Move(r, M, c.of, Vacuum(r)), VacState(r))
                   [] c.how = "ref" -> Mean(r, Move(r, M, c.of, r.phi))
                   [] c.how = "series" -> FoldLeft(LAMBDA acc, p : (acc + Coef(Move(r, M, p.of, Commuted(r, M, p, Len(p.cm), Move(r, M, p.right, Vacuum(r)))), VacState(r))) % P, 0, c.parts)
                   [] OTHER -> 1
Holds(r, M, c) == CASE c.how = "map" -> SameMaps(r, M, c)
                    [] c.how \in {"vev", "series"} -> IsNumber(c.e) /\ Number(r, c.e) = Want(r, M, c)
                    [] c.how = "ref" -> IsNumber(c.e) /\ Number(r, Filled(r, c.e)) = Want(r, M, c)
                    [] c.how = "lie" -> \A s \in ToSet(r.starts) : Merge(Lie(r, M, c, << <<s, 1>> >>)) = Merge(Move(r, M, c.e, << <<s, 1>> >>))
                    [] c.how = "moves" -> Moves(r, M, c)
Judge(r) == LET M == TLCEval([n \in 1..Len(r.ops) |-> Map(r, r.ops[n])])
                bad == {n \in 1..Len(r.checks) : ~Holds(r, M, r.checks[n])}
            IN  IF bad # {} THEN [v |-> "differs", at |-> Min(bad)]
                ELSE IF \A n \in 1..Len(r.checks) : Want(r, M, r.checks[n]) = 0 THEN [v |-> "zero", at |-> 0]
                ELSE [v |-> "same", at |-> 0]

Init == case \in 1..Len(Trace) /\ verdict = [v |-> "unread", at |-> 0]
Next == /\ verdict.v = "unread"
        /\ verdict' = Judge(Trace[case])
        /\ UNCHANGED case
        /\ IF verdict'.v = "same" THEN TRUE
           ELSE PrintT("JUDGED " \o ToJson([case |-> case, v |-> verdict'.v, at |-> verdict'.at]))
Spec == Init /\ [][Next]_vars
AllJudged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
