------------------------------- MODULE Scalars -------------------------------
(* Exact scalars: rational numbers, complex rational numbers, constants and   *)
(* symbolic powers (core/rational.hpp, complex.hpp, expressions/constant.hpp, *)
(* expressions/power.hpp).  Numbers of any magnitude are followed modulo      *)
(* several primes congruent to 3 mod 4, where a + b i is 0 only if a and b    *)
(* are; a number is invertible here if it is modulo all of them, and two      *)
(* numbers are equal if they are modulo all of them.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Histories

P == <<46327, 46307, 46279, 46271>>
NP == Len(P)
Regs == 1..4
VARIABLES reg, h
vars == <<reg, h>>
M(k, x) == x % P[k]
RECURSIVE PowMod(_, _, _)
PowMod(k, x, n) == IF n = 0 THEN 1 ELSE LET r == PowMod(k, x, n \div 2) s == (r * r) % P[k] IN IF n % 2 = 1 THEN (s * x) % P[k] ELSE s
InvMod(k, x) == PowMod(k, x, P[k] - 2)
Each(F(_)) == TLCEval([k \in 1..NP |-> F(k)])
(* decimal digits, most significant first *)
RECURSIVE Dig(_, _, _)
Dig(k, d, n) == IF n = 0 THEN 0 ELSE ((Dig(k, d, n - 1) * 10) + d[n]) % P[k]

Num(re, im, bits) == [re |-> re, im |-> im, bits |-> bits]
Small(n, d) == Each(LAMBDA k : (M(k, n) * InvMod(k, d)) % P[k])
Lit(n, d, m, e) == Num(Small(n, d), Small(m, e), 20)
Zero == Lit(0, 1, 0, 1)
One == Lit(1, 1, 0, 1)
Same(a, b) == a.re = b.re /\ a.im = b.im
Real(a) == \A k \in 1..NP : a.im[k] = 0
Add(a, b) == Num(Each(LAMBDA k : (a.re[k] + b.re[k]) % P[k]), Each(LAMBDA k : (a.im[k] + b.im[k]) % P[k]), a.bits + b.bits + 2)
Neg(a) == Num(Each(LAMBDA k : M(k, 0 - a.re[k])), Each(LAMBDA k : M(k, 0 - a.im[k])), a.bits)
Conj(a) == Num(a.re, Each(LAMBDA k : M(k, 0 - a.im[k])), a.bits)
Mul(a, b) == Num(Each(LAMBDA k : (((a.re[k] * b.re[k]) % P[k]) + P[k] - ((a.im[k] * b.im[k]) % P[k])) % P[k]),
                 Each(LAMBDA k : (((a.re[k] * b.im[k]) % P[k]) + ((a.im[k] * b.re[k]) % P[k])) % P[k]), a.bits + b.bits + 2)
Norm(a) == Num(Mul(a, Conj(a)).re, Zero.re, 2 * a.bits)
Unit(a) == \A k \in 1..NP : ~(a.re[k] = 0 /\ a.im[k] = 0)
Inv(a) == LET n == Norm(a).re IN
  Num(Each(LAMBDA k : (a.re[k] * InvMod(k, n[k])) % P[k]), Each(LAMBDA k : (M(k, 0 - a.im[k]) * InvMod(k, n[k])) % P[k]), 3 * a.bits)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE IF n < 0 THEN Inv(Pow(a, 0 - n)) ELSE Mul(a, Pow(a, n - 1))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Frac(n, d) == LET g == Gcd(Abs(n), d) IN [n |-> IF n < 0 THEN 0 - (Abs(n) \div g) ELSE n \div g, d |-> d \div g]
FracAdd(a, b) == Frac((a.n * b.d) + (b.n * a.d), a.d * b.d)
Roots(n) == {r \in 0..13 : r * r = n}
Root(n) == CHOOSE r \in 0..13 : r * r = n

(* b^e for a number b = p/q + i m (in lowest terms) or a variable, e rational: what is left of it when it is flattened *)
Flat(b, e, conj) ==
  LET val == Lit(b.p.n, b.p.d, b.m, 1)  C(v) == IF conj THEN Conj(v) ELSE v
      out(kind, v) == [kind |-> kind, v |-> v, e |-> IF kind = "power" THEN e ELSE [n |-> 0, d |-> 1], conj |-> (kind # "const" /\ conj)] IN
  IF e.n = 0 THEN out("const", One)
  ELSE IF b.var THEN IF e = [n |-> 1, d |-> 1] THEN out("var", Zero) ELSE out("power", Zero)
  ELSE IF Same(val, One) THEN out("const", One)
  ELSE IF e.d = 1 THEN out("const", C(Pow(val, e.n)))
  ELSE IF e.d = 2 /\ b.m = 0 /\ b.p.n >= 0 /\ Roots(b.p.n) # {} /\ Roots(b.p.d) # {}
       THEN out("const", Pow(Lit(Root(b.p.n), Root(b.p.d), 0, 1), e.n))
  ELSE out("power", val)

(* what is seen of the registers: their values, and which are equal (and so have one hash) and one text *)
First(r, k) == CHOOSE j \in 1..k : Same(r[j], r[k]) /\ \A i \in 1..(j - 1) : ~Same(r[i], r[k])
See(r) == LET cls == TLCEval([k \in DOMAIN r |-> First(r, k)]) IN
  [re |-> [k \in DOMAIN r |-> r[k].re], im |-> [k \in DOMAIN r |-> r[k].im], eq |-> cls, hash |-> [k \in DOMAIN r |-> TRUE], latex |-> cls, text |-> cls, cloned |-> cls,
   zero |-> [k \in DOMAIN r |-> Same(r[k], Zero)], one |-> [k \in DOMAIN r |-> Same(r[k], One)], real |-> [k \in DOMAIN r |-> Real(r[k])]]

(* an operation: [ok, next registers, the call, what else it shows] *)
Op(ok, r, call, more) == [ok |-> ok, r |-> r, call |-> call, more |-> more]
None == [done |-> TRUE]
Set(k, v, call, more) == Op(v.bits < 8000, [reg EXCEPT ![k] = v], call @@ [dst |-> k], more)
Pick(S) == TLCEval(RandomElement(S))
DigitsOf(n) == TLCEval([k \in 1..n |-> IF k = 1 THEN RandomElement(1..9) ELSE RandomElement(0..9)])
Sgn(s, v) == IF s THEN Neg(v) ELSE v

DoLit(k) == LET n == Pick((-12)..12) d == Pick(1..12) m == Pick({0, 0} \cup (-6)..6) e == Pick(1..6) IN
  Set(k, Lit(n, d, m, e), [op |-> "lit", n |-> n, d |-> d, m |-> m, e |-> e, how |-> Pick({"parts", "quotient", "string"})], None)
DoUnit(k) == LET n == Pick((-3)..3) m == Pick((-1)..1) IN Set(k, Lit(n, 1, m, 1), [op |-> "lit", n |-> n, d |-> 1, m |-> m, e |-> 1, how |-> Pick({"ints", "parts", "constant"})], None)
BigPart(a, b, s) == LET den == Each(LAMBDA j : Dig(j, b, Len(b))) IN
  [ok |-> \A j \in 1..NP : den[j] # 0, v |-> Each(LAMBDA j : M(j, (IF s THEN -1 ELSE 1) * ((Dig(j, a, Len(a)) * InvMod(j, den[j])) % P[j])))]
DoBig(k) == LET a == DigitsOf(Pick(1..45)) b == DigitsOf(Pick(1..30)) s == Pick(BOOLEAN) c == DigitsOf(Pick(1..25)) e == DigitsOf(Pick(1..25)) t == Pick(BOOLEAN) im == Pick(BOOLEAN)
                x == BigPart(a, b, s) y == BigPart(c, e, t) IN
  IF x.ok /\ y.ok THEN Set(k, Num(x.v, IF im THEN y.v ELSE Zero.re, 400), [op |-> "big", a |-> a, b |-> b, s |-> s, im |-> im, c |-> c, e |-> e, t |-> t], None) ELSE DoLit(k)
Two(k, i, j, op, how, v) == Set(k, v, [op |-> op, a |-> i, b |-> j, how |-> how], None)
DoBin(k) == LET i == Pick(Regs) j == Pick(Regs) op == Pick({"add", "sub", "mul", "div"}) a == reg[i] b == reg[j]
                how == Pick({"free", "assign", "constant"} \cup (IF Real(b) THEN {"scalar"} ELSE {}) \cup (IF Real(a) THEN {"left"} ELSE {})) IN
  CASE op = "add" -> Two(k, i, j, op, how, Add(a, b))
    [] op = "sub" -> Two(k, i, j, op, how, Add(a, Neg(b)))
    [] op = "mul" -> Two(k, i, j, op, how, Mul(a, b))
    [] op = "div" -> IF Unit(b) THEN Two(k, i, j, op, IF how = "left" THEN how ELSE "free", Mul(a, Inv(b))) ELSE DoLit(k)
DoUn(k) == LET i == Pick(Regs) op == Pick({"neg", "conj", "norm", "copy"}) IN
  Set(k, CASE op = "neg" -> Neg(reg[i]) [] op = "conj" -> Conj(reg[i]) [] op = "norm" -> Norm(reg[i]) [] OTHER -> reg[i],
      [op |-> op, a |-> i, how |-> Pick({"free", "constant"})], None)
DoPow(k) == LET i == Pick(Regs) n == Pick((-5)..9) c == Pick(BOOLEAN) IN
  IF (n >= 0 \/ Unit(reg[i])) /\ (reg[i].bits * (Abs(n) + 1) < 4000)
  THEN LET v == Pow(reg[i], n) IN Set(k, IF c THEN Conj(v) ELSE v, [op |-> "pow", a |-> i, n |-> n, conj |-> c], [kind |-> "const"])
  ELSE DoLit(k)
Squares == {0, 1, 4, 9, 16, 25, 36, 49, 144}
(* a product of powers of one base, some given by the base itself *)
DoSym(k) == LET p == Frac(IF Pick(1..3) = 1 THEN Pick((-9)..50) ELSE Pick(Squares), IF Pick(1..3) = 1 THEN Pick(1..9) ELSE Pick(Squares \ {0})) m == IF Pick(1..4) = 1 THEN Pick((-2)..2) ELSE 0
                var == (Pick(1..4) = 1) e1 == Frac(Pick((-4)..5), Pick({1, 2, 2, 3})) e2 == Frac(Pick((-4)..5), Pick({1, 2, 2, 3})) n == Pick(1..3) c == Pick(BOOLEAN)
                b == [p |-> p, m |-> m, var |-> var]
                how == IF n = 1 THEN "one" ELSE IF n = 3 /\ (var \/ ~c) THEN "bare" ELSE "two"
                e == IF how = "one" THEN e1 ELSE IF how = "bare" THEN FracAdd(e1, [n |-> 1, d |-> 1]) ELSE FracAdd(e1, e2)
                zero == ~var /\ p.n = 0 /\ m = 0
                f == Flat(b, e, c) IN
  IF zero /\ (e1.n < 0 \/ (how = "two" /\ e2.n < 0)) THEN DoLit(k)
  ELSE Op(TRUE, IF f.kind = "const" THEN [reg EXCEPT ![k] = f.v] ELSE reg,
          [op |-> "sym", dst |-> k, n |-> p.n, d |-> p.d, m |-> m, var |-> var, e1 |-> e1, e2 |-> e2, conj |-> c, how |-> how],
          [kind |-> f.kind, e |-> f.e, conj |-> f.conj, zero |-> (~var /\ p.n = 0 /\ m = 0 /\ e.n > 0)])
(* nearest rationals of n / 2^s, exactly or to within 2^-t *)
Two_(s) == 2 ^ s
DoFloat(k) == LET n == Pick((-4000)..4000) s == Pick(0..7) t == Pick(1..12) exact == Pick(BOOLEAN) IN
  Op(TRUE, IF exact THEN [reg EXCEPT ![k] = Lit(n, Two_(s), 0, 1)] ELSE reg, [op |-> "float", dst |-> k, n |-> n, s |-> s, t |-> t, exact |-> exact], [near |-> TRUE])
(* conversion to machine integers *)
DoCast(k) == LET f == Frac(Pick((-300)..300), Pick(1..3)) IN
  Op(TRUE, reg, [op |-> "cast", n |-> f.n, d |-> f.d], [int |-> f.d = 1, byte |-> f.d = 1 /\ f.n >= -128 /\ f.n <= 127, unsigned |-> f.d = 1 /\ f.n >= 0, half |-> TRUE])
DoOrder(k) == LET a == Frac(Pick((-40)..40), Pick(1..20)) b == Frac(Pick((-40)..40), Pick(1..20)) IN
  Op(TRUE, reg, [op |-> "order", a |-> a, b |-> b], [less |-> a.n * b.d < b.n * a.d, same |-> a = b])

Do(kind, k) == CASE kind = 1 -> DoLit(k) [] kind = 2 -> DoUnit(k) [] kind = 3 -> DoBig(k) [] kind \in {4, 5, 6, 7} -> DoBin(k) [] kind = 8 -> DoUn(k)
                 [] kind = 9 -> DoPow(k) [] kind \in {10, 11} -> DoSym(k) [] kind = 12 -> DoFloat(k) [] kind = 13 -> DoCast(k) [] OTHER -> DoOrder(k)
Init == reg = <<One, Lit(0, 1, 1, 1), Lit(2, 3, 0, 1), Lit(-1, 2, 3, 1)>> /\ h = <<>>
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED reg
        \/ /\ Len(h) < Steps
           /\ \E k \in Choose(Regs), kind \in Choose(1..14) : \E x \in {TLCEval(Do(kind, k))} : \E o \in {IF x.ok THEN x ELSE TLCEval(DoLit(k))} :
              /\ reg' = o.r
              /\ h' = Append(h, o.call @@ [see |-> [regs |-> See(o.r), more |-> o.more]])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* the field laws, over a set of numbers closed under nothing *)
Some == {Lit(n, d, m, 1) : n \in {-2, 0, 1, 3}, d \in {1, 3}, m \in {-1, 0, 2}}
SmallInit == h = <<>> /\ \E a, b, c \in Some : reg = <<a, b, c, a>>
SmallSpec == SmallInit /\ [][FALSE]_vars
a_ == reg[1]
b_ == reg[2]
c_ == reg[3]
Field == /\ Same(Mul(a_, Add(b_, c_)), Add(Mul(a_, b_), Mul(a_, c_))) /\ Same(Mul(Mul(a_, b_), c_), Mul(a_, Mul(b_, c_)))
         /\ Same(Add(a_, Neg(a_)), Zero) /\ (Unit(a_) => Same(Mul(a_, Inv(a_)), One)) /\ (Unit(a_) \/ Same(a_, Zero))
         /\ Same(Conj(Mul(a_, b_)), Mul(Conj(a_), Conj(b_))) /\ Same(Norm(Mul(a_, b_)), Mul(Norm(a_), Norm(b_))) /\ (Real(a_) <=> Same(a_, Conj(a_)))
         /\ Same(Mul(Pow(a_, 2), Pow(a_, 3)), Pow(a_, 5)) /\ (Unit(b_) => Same(Mul(Pow(b_, -2), Pow(b_, 3)), b_))
=============================================================================
