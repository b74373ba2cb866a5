--------------------------- MODULE TensorAlgebra ---------------------------
(***************************************************************************)
(* What a symbolic tensor expression means.                                *)
(*                                                                         *)
(* An expression is a JSON value.  Its indices are numbered; idx[n] says   *)
(* over which orbitals index n runs.  Every tensor stands for an arbitrary *)
(* table of numbers that has the symmetries the tensor declares: the table *)
(* is a pseudo-random function of the label and the slots, made            *)
(* (anti)symmetric by sorting the slots.  Numbers live in the prime field  *)
(* GF(P), so two expressions that agree as polynomials agree here exactly, *)
(* and two that differ, differ except with probability about degree/P.     *)
(*                                                                         *)
(* A complex number z is represented by z(Iota); its conjugate is an       *)
(* independent number except for those quantities that are declared real   *)
(* or hermitian.  ("sg" below: +1 for a quantity, -1 for its conjugate.)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets, Functions, TLC

P == 46337          \* prime, = 1 mod 4, = 2 mod 3, P*P < 2^31
Iota == CHOOSE x \in 2..(P-1) : (x * x) % P = P - 1

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1
             ELSE LET h == Pow((x * x) % P, n \div 2)
                  IN  IF n % 2 = 1 THEN (h * x) % P ELSE h
Inv(x) == Pow(x, P - 2)
Frac(q) == IF q[2] = 1 THEN q[1] % P ELSE ((q[1] % P) * Inv(q[2] % P)) % P

\* c: [re |-> <<num, den>>, im |-> <<num, den>>]
Scalar(c, sg) == IF c.im[1] = 0 THEN Frac(c.re)
                 ELSE (Frac(c.re) + sg * Iota * Frac(c.im)) % P

----------------------------------------------------------------------------
(* pseudo-random functions *)
Mix(h, x) == LET a == (h * 31 + x * 1009 + 7) % P
                 b == (a * a) % P
             IN  (b * a + 12345) % P
HashSeq(h0, s) == FoldLeft(Mix, h0, s)

----------------------------------------------------------------------------
(* sorting with parity; parity 0 if two entries coincide *)
RECURSIVE InsPos(_, _, _)
InsPos(s, x, n) == IF n = 0 THEN 0 ELSE IF s[n] <= x THEN n ELSE InsPos(s, x, n - 1)
\* acc = <<sorted, sign>>
SortStep(acc, x) == LET n == Len(acc[1])
                        k == InsPos(acc[1], x, n)
                        dup == k > 0 /\ acc[1][k] = x /\ x # 0
                    IN  << IF k = n THEN Append(acc[1], x)
                           ELSE SubSeq(acc[1], 1, k) \o <<x>> \o SubSeq(acc[1], k + 1, n),
                           IF dup THEN 0 ELSE IF (n - k) % 2 = 1 THEN -acc[2] ELSE acc[2] >>
SortSgn(s) == IF Len(s) < 2 THEN << s, 1 >>
              ELSE IF Len(s) = 2 THEN IF s[1] < s[2] THEN << s, 1 >>
                                      ELSE IF s[1] = s[2] /\ s[1] # 0 THEN << s, 0 >>
                                      ELSE << <<s[2], s[1]>>, IF s[1] = s[2] THEN 1 ELSE -1 >>
              ELSE FoldLeft(SortStep, << <<>>, 1 >>, s)
Sorted(s) == SortSgn(s)[1]

RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, k) == IF k > Len(a) THEN Len(b) >= k
                    ELSE IF k > Len(b) THEN FALSE
                    ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE SeqLess(a, b, k + 1)

----------------------------------------------------------------------------
(* value of the tensor t whose slots hold the values b, k, x *)
\* columns of a column-symmetric tensor, as one number each
Hi(n) == n \div 10000
Lo(n) == n % 10000
Cols(b, k) == LET n == IF Len(b) > Len(k) THEN Len(b) ELSE Len(k)
              IN [c \in 1..n |-> (IF c <= Len(b) THEN b[c] ELSE 0) * 10000
                                  + (IF c <= Len(k) THEN k[c] ELSE 0)]
\* t.sym: "A" antisymmetric, "S" symmetric, "N" neither;
\* t.cs: TRUE when columns may be permuted;  t.bk: "S" symmetric, "C" conjugate, "N" neither
Core(t, b, k, x, sg) ==
    LET lab == Mix(t.h + 10000 * (sg + 1), Len(b) * 7 + Len(k))
        hb == HashSeq(lab, b)
    IN  HashSeq(HashSeq(Mix(hb, 777), k), x)
Ordered(t, b, k, x, sg) ==
    IF t.bk = "N" THEN Core(t, b, k, x, sg)
    ELSE IF t.bk = "S" THEN IF SeqLess(b, k, 1) THEN Core(t, b, k, x, 1) ELSE Core(t, k, b, x, 1)
    ELSE IF b = k THEN Core(t, b, k, x, 1)
    ELSE IF SeqLess(b, k, 1) THEN Core(t, b, k, x, sg)
    ELSE Core(t, k, b, x, -sg)
AntiVal(t, sb, sk, x, sg) ==
    IF sb[2] * sk[2] = 0 THEN 0
    ELSE (sb[2] * sk[2] * Ordered(t, sb[1], sk[1], x, sg)) % P
His(s) == [n \in 1..Len(s) |-> Hi(s[n])]
Los(s) == [n \in 1..Len(s) |-> Lo(s[n])]
ColVal(t, c, d, x, sg) ==      \* c: columns (bra, ket), d: columns (ket, bra), sorted
    IF t.bk = "N" THEN Core(t, His(c), Los(c), x, sg)
    ELSE IF t.bk = "S" THEN IF SeqLess(c, d, 1) THEN Core(t, His(c), Los(c), x, 1) ELSE Core(t, His(d), Los(d), x, 1)
    ELSE IF c = d THEN Core(t, His(c), Los(c), x, 1)
    ELSE IF SeqLess(c, d, 1) THEN Core(t, His(c), Los(c), x, sg)
    ELSE Core(t, His(d), Los(d), x, -sg)
\* "E": a repulsion integral of real orbitals, bra and ket of a column may be exchanged
ColumnPair(n) == IF Hi(n) < Lo(n) THEN Lo(n) * 10000 + Hi(n) ELSE n
(* Spin-orbitals: value v of an index stands for a spatial orbital and a    *)
(* spin; every space has t.m spatial orbitals and begins at a multiple of   *)
(* 2 t.m, spin up first.  Tensors conserve the spin of each particle; "X"   *)
(* is the antisymmetrized form of a tensor, "Y" the plain one, "Z" the      *)
(* plain one over spatial orbitals.  t.open: the numbers depend on spins.   *)
SpinOf(t, v) == ((v - 1) \div t.m) % 2
Spatial(t, v) == ((v - 1) \div (2 * t.m)) * t.m + ((v - 1) % t.m) + 1
Orb(t, s) == IF t.open THEN s ELSE [n \in 1..Len(s) |-> Spatial(t, s[n])]
Conserves(t, b, k) == \A n \in 1..Len(b) : SpinOf(t, b[n]) = SpinOf(t, k[n])
ByColumns(t, b, k, x, sg) == IF t.cs THEN ColVal(t, Sorted(Cols(b, k)), Sorted(Cols(k, b)), x, sg) ELSE Ordered(t, b, k, x, sg)
Perms(n) == SetToSeq({p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]})
SpinVal(t, b, k, x, sg) ==
    CASE t.sym = "Z" -> ByColumns(t, [n \in 1..Len(b) |-> Spatial(t, b[n])], [n \in 1..Len(k) |-> Spatial(t, k[n])], x, sg)
      [] t.sym = "Y" -> IF Conserves(t, b, k) THEN ByColumns(t, Orb(t, b), Orb(t, k), x, sg) ELSE 0
      [] t.sym = "X" -> FoldLeft(LAMBDA acc, p : LET q == [n \in 1..Len(k) |-> k[p[n]]]
                                                 IN IF Conserves(t, b, q) THEN (acc + SortSgn(p)[2] * ByColumns([t EXCEPT !.cs = TRUE], Orb(t, b), Orb(t, q), x, sg)) % P ELSE acc,
                                 0, Perms(Len(k)))
PlainVal(t, b, k, x, sg) ==
    CASE t.sym \in {"X", "Y", "Z"} -> SpinVal(t, b, k, x, sg)
      [] t.sym = "E" -> (LET c == Cols(b, k) IN Core(t, Sorted([n \in 1..Len(c) |-> ColumnPair(c[n])]), <<>>, x, 1))
      [] t.sym = "A" -> AntiVal(t, SortSgn(b), SortSgn(k), x, sg)
      [] t.sym = "S" -> Ordered(t, Sorted(b), Sorted(k), x, sg)
      [] t.sym = "N" /\ t.cs -> ColVal(t, Sorted(Cols(b, k)), Sorted(Cols(k, b)), x, sg)
      [] t.sym = "N" /\ ~t.cs -> Ordered(t, b, k, x, sg)
\* t.adj: the adjoint of the tensor t
TensorVal(t, b, k, x, sg) == IF t.adj THEN PlainVal(t, k, b, x, -sg) ELSE PlainVal(t, b, k, x, sg)

----------------------------------------------------------------------------
(* expressions *)
\* value of slot n (0: empty slot) under env, with the values of its proto-indices
Slot(idx, env, n) ==
    IF n = 0 THEN 0
    ELSE IF idx[n].pr = <<>> THEN env[n]
    ELSE env[n] + 20 * (1 + (HashSeq(17, Sorted([q \in 1..Len(idx[n].pr) |-> env[idx[n].pr[q]]])) % 400))
Slots(idx, env, s) == [m \in 1..Len(s) |-> Slot(idx, env, s[m])]

\* indices occurring in an expression: a set
RECURSIVE Occ(_, _)
SlotIdx(idx, s) == UNION {({s[m]} \cup ToSet(idx[s[m]].pr)) : m \in {q \in 1..Len(s) : s[q] # 0}}
Occ(idx, e) == CASE e.k = "t" -> SlotIdx(idx, e.b) \cup SlotIdx(idx, e.q) \cup SlotIdx(idx, e.x)
                 [] e.k \in {"adj", "anti", "symm", "swap"} -> Occ(idx, e.e)
                 [] e.k = "call" -> SlotIdx(idx, e.args)
                 [] e.k = "tab" -> SlotIdx(idx, e.sl)
                 [] e.k \in {"p", "+", "scoped"} -> UNION {Occ(idx, e.a[m]) : m \in 1..Len(e.a)}
                 [] OTHER -> {}

\* the indices summed at product p, given the set of those bound already
LeafIdx(idx, e) == IF e.k = "t" THEN Occ(idx, e) ELSE {}
SummedAt(idx, fs, bound) ==
    LET occ == [m \in 1..Len(fs) |-> Occ(idx, fs[m])]
    IN {i \in (UNION {occ[m] : m \in 1..Len(fs)}) \ bound :
           \/ \E m \in 1..Len(fs) : fs[m].k \in {"t", "call", "tab"} /\ i \in occ[m]
           \/ \E m, n \in 1..Len(fs) : m < n /\ i \in occ[m] /\ i \in occ[n]}

(* the adjoint of an expression, as an expression *)
RECURSIVE Adj(_)
ConjScalar(c) == [c EXCEPT !.im = <<-@[1], @[2]>>]
Adj(e) == CASE e.k = "c" -> [e EXCEPT !.s = ConjScalar(@)]
            [] e.k = "v" -> [e EXCEPT !.cj = ~@]
            [] e.k = "^" -> [e EXCEPT !.cj = ~@]
            [] e.k = "t" -> [e EXCEPT !.b = e.q, !.q = e.b, !.adj = IF e.op THEN FALSE ELSE ~@]
            [] e.k = "p" -> [e EXCEPT !.s = ConjScalar(@), !.a = [n \in 1..Len(e.a) |-> Adj(e.a[Len(e.a) + 1 - n])]]
            [] e.k = "+" -> [e EXCEPT !.a = [n \in 1..Len(e.a) |-> Adj(e.a[n])]]
(* Reading in which an index that occurs twice within a product is bound    *)
(* there, whatever stands outside of that product.                          *)
RECURSIVE Free(_, _)
TwiceIn(occ) == {i \in UNION ToSet(occ) : Cardinality({m \in 1..Len(occ) : i \in occ[m]}) > 1}
Free(idx, e) == CASE e.k = "t" -> Occ(idx, e)
                  [] e.k = "p" -> LET occ == [m \in 1..Len(e.a) |-> Free(idx, e.a[m])] IN UNION ToSet(occ) \ TwiceIn(occ)
                  [] e.k = "+" -> UNION {Free(idx, e.a[m]) : m \in 1..Len(e.a)}
                  [] OTHER -> {}
RECURSIVE Scoped(_, _)
Scoped(idx, e) == CASE e.k = "p" -> [k |-> "scoped", s |-> e.s, a |-> [m \in 1..Len(e.a) |-> Scoped(idx, e.a[m])],
                                     ds |-> TwiceIn([m \in 1..Len(e.a) |-> Free(idx, e.a[m])])]
                    [] e.k = "+" -> [e EXCEPT !.a = [m \in 1..Len(e.a) |-> Scoped(idx, e.a[m])]]
                    [] OTHER -> e
RECURSIVE Val(_, _, _, _, _)       \* expression, environment, bound indices
RECURSIVE NOps(_)
\* z: how many operators stand left of this point.  Operators do not commute:
\* an operator's value depends on its place among the operators of a product.
NOps(e) == CASE e.k = "t" -> IF e.op THEN 1 ELSE 0
             [] e.k \in {"p", "scoped"} -> FoldLeft(LAMBDA acc, f : acc + NOps(f), 0, e.a)
             [] e.k = "+" -> IF e.a = <<>> THEN 0 ELSE NOps(e.a[1])
             [] e.k = "adj" -> NOps(e.e)
             [] OTHER -> 0
\* a variable is the square of its root, so that half-integer powers exist
Root(h, sg) == Core([h |-> h], <<>>, <<>>, <<>>, sg)
IntPow(x, n) == IF n >= 0 THEN Pow(x, n) ELSE Inv(Pow(x, -n))
IntRoot(n) == IF \E r \in 0..100 : r * r = n THEN CHOOSE r \in 0..100 : r * r = n ELSE -1
\* e.b: base (variable or constant), e.n/e.d: exponent (1/3 is unique in this field), e.cj: conjugated
PowVal(e) ==
    LET sg == IF e.cj THEN -1 ELSE 1
        halfsign == IF e.cj /\ e.n % 2 = 1 THEN P - 1 ELSE 1    \* conj(z^(1/2)) is not conj(z)^(1/2)
        sq == [q \in {1, 2} |-> IntRoot(e.b.s.re[q])]
        perfect == e.b.s.im[1] = 0 /\ sq[1] >= 0 /\ sq[2] >= 0
        opaque == Mix(HashSeq(77, e.b.s.re \o e.b.s.im), e.d)
    IN  IF e.d = 1 THEN IntPow(IF e.b.k = "v" THEN (LET r == Root(e.b.h, IF e.b.cj THEN -sg ELSE sg) IN (r * r) % P) ELSE Scalar(e.b.s, sg), e.n)
        ELSE IF e.d = 3 THEN IntPow(Pow(IF e.b.k = "v" THEN (LET r == Root(e.b.h, IF e.b.cj THEN -sg ELSE sg) IN (r * r) % P) ELSE Scalar(e.b.s, sg), 30891), e.n)
        ELSE IF e.b.k = "v" THEN (halfsign * IntPow(Root(e.b.h, IF e.b.cj THEN -sg ELSE sg), e.n)) % P
        ELSE IF perfect THEN IntPow((sq[1] * Inv(sq[2])) % P, e.n)
        ELSE (halfsign * IntPow(opaque, e.n)) % P
\* A table of numbers: e.tab holds one for every assignment of the slots, whose
\* values are those above d[m].lo; the first slot counts fastest.
Position(d, v) == 1 + FoldLeft(LAMBDA acc, m : acc * d[Len(v) + 1 - m].n + (v[Len(v) + 1 - m] - d[Len(v) + 1 - m].lo - 1), 0, [m \in 1..Len(v) |-> m])
Leaf(idx, e, env, z) ==
    CASE e.k = "tab" -> e.tab[Position(e.d, Slots(idx, env, e.sl))]
      [] e.k = "c" -> Scalar(e.s, 1)
      [] e.k = "v" -> (LET r == Root(e.h, IF e.cj THEN -1 ELSE 1) IN (r * r) % P)
      [] e.k = "^" -> IF e.b.k = "tab" THEN IntPow(e.b.tab[1], e.n) ELSE PowVal(e)
      [] e.k = "t" /\ e.dl -> IF Slots(idx, env, e.b) = Slots(idx, env, e.q) THEN 1 ELSE 0     \* overlap, Kronecker delta
      [] e.k = "t" -> TensorVal(IF e.op THEN [e EXCEPT !.h = @ + 10000 * (z + 3)] ELSE e, Slots(idx, env, e.b), Slots(idx, env, e.q), Slots(idx, env, e.x), 1)


(* The sum over the indices ds of the product of fs.  Index by index; a     *)
(* factor is multiplied in as soon as all indices it needs are bound.       *)
Order(idx, fs, summed) ==
    FoldLeft(LAMBDA acc, f : acc \o SetToSeq((Occ(idx, f) \cap summed) \ ToSet(acc)), <<>>, fs)
RECURSIVE Descend(_, _, _, _, _, _, _, _, _)
RECURSIVE Branches(_, _, _, _, _, _, _, _, _, _)
RECURSIVE Multiply(_, _, _, _, _, _, _, _)
Factor(idx, f, env, bound, z) == IF f.k \in {"t", "tab"} THEN Leaf(idx, f, env, z) ELSE Val(idx, f, env, bound, z)
Multiply(idx, fs, zs, level, env, bound, acc, n) ==
    IF n > Len(level) \/ acc = 0 THEN acc
    ELSE Multiply(idx, fs, zs, level, env, bound,
                  (acc * Factor(idx, fs[level[n]], env, bound, zs[level[n]])) % P, n + 1)
Descend(idx, fs, zs, levels, env, bound, ds, n, acc) ==
    LET v == Multiply(idx, fs, zs, levels[n + 1], env, bound, acc, 1)
    IN  IF n = Len(ds) \/ v = 0 THEN v
        ELSE Branches(idx, fs, zs, levels, env, bound, ds, n, v, idx[ds[n + 1]].lo + 1)
Branches(idx, fs, zs, levels, env, bound, ds, n, v, x) ==
    IF x > idx[ds[n + 1]].lo + idx[ds[n + 1]].n THEN 0
    ELSE (Descend(idx, fs, zs, levels, [env EXCEPT ![ds[n + 1]] = x], bound, ds, n + 1, v)
          + Branches(idx, fs, zs, levels, env, bound, ds, n, v, x + 1)) % P
ContractOver(idx, fs, env, bound, z, summed) ==
    LET ds == Order(idx, fs, summed)
        occ == [m \in 1..Len(fs) |-> Occ(idx, fs[m])]
        ready == [m \in 1..Len(fs) |->
                    LET at == {q \in 1..Len(ds) : ds[q] \in occ[m]} IN IF at = {} THEN 0 ELSE Max(at)]
        zs == [m \in 1..Len(fs) |-> FoldLeft(LAMBDA acc, f : acc + NOps(f), z, SubSeq(fs, 1, m - 1))]
        levels == [q \in 1..(Len(ds) + 1) |-> SetToSeq({m \in 1..Len(fs) : ready[m] = q - 1})]
    IN  Descend(idx, fs, zs, levels, env, bound \cup ToSet(ds), ds, 0, 1)
Contract(idx, fs, env, bound, z) == ContractOver(idx, fs, env, bound, z, SummedAt(idx, fs, bound))

Permuted(env, s, p) == [n \in DOMAIN env |-> IF \E m \in 1..Len(s) : s[m] = n THEN env[s[p[CHOOSE m \in 1..Len(s) : s[m] = n]]] ELSE env[n]]
Actual(env, formals, args) == [n \in DOMAIN env |-> IF \E m \in 1..Len(formals) : formals[m] = n
                                                   THEN env[args[CHOOSE m \in 1..Len(formals) : formals[m] = n]] ELSE 0]
Val(idx, e, env, bound, z) ==
    CASE e.k = "p" -> (Scalar(e.s, 1) * Contract(idx, e.a, env, bound, z)) % P
      [] e.k = "scoped" -> (Scalar(e.s, 1) * ContractOver(idx, e.a, env, bound, z, e.ds)) % P
      [] e.k = "+" -> FoldLeft(LAMBDA acc, t : (acc + Val(idx, t, env, bound, z)) % P, 0, e.a)
      [] e.k \in {"t", "tab"} -> IF Occ(idx, e) \subseteq bound THEN Leaf(idx, e, env, z)
                      ELSE Contract(idx, <<e>>, env, bound, z)
      [] e.k = "adj" -> Val(idx, Adj(e.e), env, bound, z)
      \* operators that permute the names of the indices e.b, e.q: antisymmetrizer, symmetrizer, transposition of pairs
      [] e.k = "anti" -> (Inv(Len(Perms(Len(e.b))) * Len(Perms(Len(e.q)))) *
                          FoldLeft(LAMBDA acc, p : FoldLeft(LAMBDA acc2, q : (acc2 + SortSgn(p)[2] * SortSgn(q)[2] * Val(idx, e.e, Permuted(Permuted(env, e.b, p), e.q, q), bound, z)) % P,
                                                            acc, Perms(Len(e.q))), 0, Perms(Len(e.b)))) % P
      [] e.k = "symm" -> (Inv(Len(Perms(Len(e.b)))) *
                          FoldLeft(LAMBDA acc, p : (acc + Val(idx, e.e, Permuted(Permuted(env, e.b, p), e.q, p), bound, z)) % P, 0, Perms(Len(e.b)))) % P
      [] e.k = "swap" -> Val(idx, e.e, Permuted(env, e.b, [n \in 1..Len(e.b) |-> IF n % 2 = 1 THEN n + 1 ELSE n - 1]), bound, z)
      \* a name: the defining expression, its formal indices taking the values of the actual ones
      [] e.k = "call" -> IF Occ(idx, e) \subseteq bound THEN Val(idx, e.e, Actual(env, e.formals, e.args), ToSet(e.formals), z)
                         ELSE Contract(idx, <<e>>, env, bound, z)
      [] OTHER -> Leaf(idx, e, env, z)

----------------------------------------------------------------------------
(* the shape of an expression *)
RECURSIVE Expanded(_)
Expanded(e) == CASE e.k = "p" -> \A n \in 1..Len(e.a) : e.a[n].k # "+" /\ Expanded(e.a[n])
                 [] e.k = "+" -> \A n \in 1..Len(e.a) : Expanded(e.a[n])
                 [] OTHER -> TRUE
RECURSIVE Flat(_)
Flat(e) == IF e.k \in {"p", "+"} THEN \A n \in 1..Len(e.a) : e.a[n].k # e.k /\ Flat(e.a[n]) ELSE TRUE
=============================================================================
