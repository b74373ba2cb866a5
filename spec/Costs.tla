-------------------------------- MODULE Costs --------------------------------
(* Symbolic asymptotic costs (core/asy_cost.hpp): a cost is a finite sum of   *)
(* monomials in the sizes of index spaces with rational coefficients; the     *)
(* order is that of growth, the greatest monomial on which two costs differ   *)
(* deciding; one cost is greater than all others.                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Histories

NS == 3
Regs == 1..3
VARIABLES reg, h
vars == <<reg, h>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Frac(n, d) == LET g == Gcd(Abs(n), d) IN <<IF n < 0 THEN 0 - (Abs(n) \div g) ELSE n \div g, d \div g>>
QAdd(a, b) == Frac((a[1] * b[2]) + (b[1] * a[2]), a[2] * b[2])
QMul(a, b) == Frac(a[1] * b[1], a[2] * b[2])
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
QNone == <<0, 1>>

(* a cost: the greatest one, or the coefficients of its monomials, none of which is 0 *)
Cost(f) == [max |-> FALSE, c |-> TLCEval([m \in {m \in DOMAIN f : f[m] # QNone} |-> f[m]])]
Nothing == Cost([m \in {} |-> QNone])
Greatest == [max |-> TRUE, c |-> Nothing.c]
Coef(a, m) == IF m \in DOMAIN a.c THEN a.c[m] ELSE QNone
Const == [k \in 1..NS |-> 0]
Term(m, q) == IF m = Const THEN Nothing ELSE Cost([x \in {m} |-> q])   \* constants do not grow: they are no cost
Plus(a, b) == IF a.max \/ b.max THEN Greatest ELSE Cost([m \in DOMAIN a.c \cup DOMAIN b.c |-> QAdd(Coef(a, m), Coef(b, m))])
Scale(a, q) == IF a.max THEN a ELSE Cost([m \in DOMAIN a.c |-> QMul(a.c[m], q)])
Minus(a, b) == Plus(a, Scale(b, <<-1, 1>>))
(* monomials: by total degree, then by the exponents of the greatest space first *)
Degree(m) == FoldSeq(LAMBDA x, y : x + y, 0, m)
MLess(m, n) == Degree(m) < Degree(n) \/ ((Degree(m) = Degree(n)) /\ \E k \in 1..NS : m[k] < n[k] /\ \A j \in (k + 1)..NS : m[j] = n[j])
Falling(S) == SetToSortSeq(S, LAMBDA m, n : MLess(n, m))
Less(a, b) == IF a.max \/ b.max THEN ~a.max
              ELSE LET D == {m \in DOMAIN a.c \cup DOMAIN b.c : Coef(a, m) # Coef(b, m)} IN
                   LET top == CHOOSE m \in D : \A n \in D : n = m \/ MLess(n, m) IN QLess(Coef(a, top), Coef(b, top))
Compare(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
Terms(a) == LET s == Falling(DOMAIN a.c) IN [k \in DOMAIN s |-> [c |-> a.c[s[k]], m |-> s[k]]]
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Value(a, ext) == FoldSeq(LAMBDA t, v : QAdd(v, QMul(t.c, <<Power(ext[1], t.m[1]) * Power(ext[2], t.m[2]) * Power(ext[3], t.m[3]), 1>>)), QNone, Terms(a))

See(r) == [max |-> [k \in Regs |-> r[k].max], text |-> [k \in Regs |-> Terms(r[k])], latex |-> [k \in Regs |-> Terms(r[k])],
           cmp |-> [k \in Regs |-> [j \in Regs |-> Compare(r[k], r[j])]], zero |-> [k \in Regs |-> r[k] = Nothing]]
Fits(a) == \A m \in DOMAIN a.c : Abs(a.c[m][1]) < 4000 /\ a.c[m][2] < 400 /\ (Abs(a.c[m][1]) < 100 \/ a.c[m][2] < 20)
Op(ok, r, call, more) == [ok |-> ok, r |-> r, call |-> call, more |-> more]
None == [done |-> TRUE]
Set(k, v, call) == Op(Fits(v), [reg EXCEPT ![k] = v], call @@ [dst |-> k], None)
R(S) == TLCEval(RandomElement(S))
(* a few monomials that meet often; zero exponents may be given *)
Mono(z) == IF R(1..2) = 1 THEN R({<<2, 4, 0>>, <<4, 2, 0>>, <<1, 2, 3>>, <<0, 6, 0>>, <<1, 1, 0>>, <<0, 0, 1>>}) ELSE [k \in 1..NS |-> R(0..3)]
DoTerm(k) == LET m == TLCEval(Mono(0)) q == Frac(R((-3)..5), R({1, 1, 1, 2, 3})) how == R({"all", "nonzero"}) IN Set(k, Term(m, q), [op |-> "term", m |-> m, q |-> q, how |-> how])
DoPlus(k, minus) == LET i == R(Regs) j == R(Regs) inplace == R(BOOLEAN) a == IF inplace THEN reg[k] ELSE reg[i] IN
  IF minus THEN Op(~reg[j].max, [reg EXCEPT ![k] = Minus(a, reg[j])], [op |-> "minus", dst |-> k, a |-> i, b |-> j, inplace |-> inplace], None)
  ELSE Set(k, Plus(a, reg[j]), [op |-> "plus", a |-> i, b |-> j, inplace |-> inplace])
DoAddTerm(k, minus) == LET m == TLCEval(Mono(0)) q == Frac(R((-3)..5), R({1, 1, 1, 2, 3})) IN Set(k, (IF minus THEN Minus(reg[k], Term(m, q)) ELSE Plus(reg[k], Term(m, q))), [op |-> "more", m |-> m, q |-> q, minus |-> minus])
DoScale(k) == LET i == R(Regs) q == Frac(R((-3)..3), R(1..3)) how == R({"left", "right", "over"}) IN
  Op((reg[i].max => q[1] > 0) /\ (how = "over" => q[1] # 0), [reg EXCEPT ![k] = Scale(reg[i], IF how = "over" /\ q[1] # 0 THEN (IF q[1] < 0 THEN <<0 - q[2], 0 - q[1]>> ELSE <<q[2], q[1]>>) ELSE q)], [op |-> "scale", dst |-> k, a |-> i, q |-> q, how |-> how], None)
DoMax(k) == Set(k, IF R(1..2) = 1 THEN Greatest ELSE Nothing, [op |-> "max"])
DoEval(k) == LET ext == <<R(1..4), R(1..4), R(1..5)>> given == TLCEval({s \in 1..NS : R(1..4) > 1}) all == [s \in 1..NS |-> IF s \in given THEN ext[s] ELSE s + 1] IN
  Op(\A m \in DOMAIN reg[k].c : m[1] + m[2] + m[3] < 8 /\ Abs(reg[k].c[m][1]) < 200 /\ reg[k].c[m][2] < 20 /\ Cardinality(DOMAIN reg[k].c) < 5, reg,
     [op |-> "eval", a |-> k, ext |-> ext, given |-> given], [value |-> IF reg[k].max THEN <<1, 0>> ELSE Value(reg[k], all)])
DoCopy(k) == LET i == R(Regs) IN Set(k, reg[i], [op |-> "copy", a |-> i])
Do(kind, k) == CASE kind \in {1, 2} -> DoTerm(k) [] kind \in {3, 4} -> DoPlus(k, FALSE) [] kind = 5 -> DoPlus(k, TRUE) [] kind \in {6, 7, 8} -> DoAddTerm(k, FALSE)
                 [] kind = 9 -> DoAddTerm(k, TRUE) [] kind = 10 -> DoScale(k) [] kind = 11 -> IF R(1..3) = 1 THEN DoMax(k) ELSE DoTerm(k) [] kind \in {12, 13} -> DoEval(k) [] OTHER -> DoCopy(k)
Init == reg = [k \in Regs |-> Nothing] /\ h = <<>>
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED reg
        \/ /\ Len(h) < Steps
           /\ \E k \in Choose(Regs), kind \in Choose(1..14) : \E x \in {TLCEval(Do(kind, k))} : \E o \in {IF x.ok THEN x ELSE TLCEval(DoTerm(k))} :
              /\ reg' = o.r
              /\ h' = Append(h, o.call @@ [see |-> [regs |-> See(o.r), more |-> o.more]])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Few == {<<1, 0, 0>>, <<0, 2, 0>>, <<2, 0, 0>>}
Coefs == {<<-1, 1>>, <<0, 1>>, <<1, 2>>}
SomeCosts == {Cost(f) : f \in [Few -> Coefs]} \cup {Greatest}
SmallInit == h = <<>> /\ \E a, b, c \in SomeCosts : reg = <<a, b, c>>
SmallSpec == SmallInit /\ [][FALSE]_vars
a_ == reg[1]
b_ == reg[2]
c_ == reg[3]
Semiring == /\ Plus(a_, b_) = Plus(b_, a_) /\ Plus(Plus(a_, b_), c_) = Plus(a_, Plus(b_, c_)) /\ Plus(a_, Nothing) = a_
            /\ \A q \in {<<0, 1>>, <<1, 2>>, <<-3, 1>>} : (a_.max \/ b_.max) \/ Scale(Plus(a_, b_), q) = Plus(Scale(a_, q), Scale(b_, q))
            /\ (~a_.max => Minus(a_, a_) = Nothing)
Order == /\ Cardinality({x \in {-1, 0, 1} : Compare(a_, b_) = x}) = 1 /\ Compare(a_, b_) = 0 - Compare(b_, a_)
         /\ (Compare(a_, b_) = -1 /\ Compare(b_, c_) = -1 => Compare(a_, c_) = -1)
         /\ (~c_.max => Compare(Plus(a_, c_), Plus(b_, c_)) = Compare(a_, b_))
=============================================================================
