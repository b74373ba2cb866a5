------------------------------- MODULE Syntax --------------------------------
(* The text form of expressions (core/io/serialization): what a tree stands    *)
(* for (Norm), which texts there are for it (Render), and what a text is read  *)
(* as (Parse): a grammar over characters, read from left to right with the     *)
(* longest match and the first alternative that fits.                          *)
(* Characters outside ASCII are written % = a with tilde, ~ = combining tilde, *)
(* @ and & = arrows up and down, $ = alpha, # = superscript plus.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Histories

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","$","%"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Alpha == Lower \cup Upper
Word == Alpha \cup Digit \cup {"_", "~", "@", "&", "#"}
InIndex == Alpha \cup {"#", "~", "@", "&"}
Space == {" ", "\t", "\n"}
Val(d) == CHOOSE v \in 0..9 : d = <<"0","1","2","3","4","5","6","7","8","9">>[v + 1]

(* numbers of any size are followed modulo several primes *)
P == <<46327, 46307, 46279, 46271>>
RECURSIVE PowMod(_, _, _)
PowMod(p, x, n) == IF n = 0 THEN 1 ELSE LET r == PowMod(p, x, n \div 2) s == (r * r) % p IN IF n % 2 = 1 THEN (s * x) % p ELSE s
InvMod(p, x) == PowMod(p, x, p - 2)
RECURSIVE DigMod(_, _, _)
DigMod(p, d, n) == IF n = 0 THEN 0 ELSE ((DigMod(p, d, n - 1) * 10) + Val(d[n])) % p
Each(F(_)) == TLCEval([k \in DOMAIN P |-> F(P[k])])
(* a part of a number: sign, digits, power of ten *)
PartOf(s, m, e) == [neg |-> s, m |-> m, e |-> e]
PartVal(x) == Each(LAMBDA p : LET a == (DigMod(p, x.m, Len(x.m)) * (IF x.e < 0 THEN InvMod(p, PowMod(p, 10, 0 - x.e)) ELSE PowMod(p, 10, x.e))) % p
                              IN IF x.neg THEN (p - a) % p ELSE a)
AllZero(x) == \A k \in DOMAIN x.m : x.m[k] = "0"
Whole(x) == x.e >= 0 \/ AllZero(x) \/ \A k \in DOMAIN x.m : k > Len(x.m) + x.e => x.m[k] = "0"
Mul(a, b) == TLCEval([k \in DOMAIN P |-> (a[k] * b[k]) % P[k]])
Add(a, b) == TLCEval([k \in DOMAIN P |-> (a[k] + b[k]) % P[k]])
One == [k \in DOMAIN P |-> 1]
Zero == [k \in DOMAIN P |-> 0]
NumVal(c) == LET d == PartVal(c.d) IN Mul(PartVal(c.n), TLCEval([k \in DOMAIN P |-> InvMod(P[k], d[k])]))
UnitPart == PartOf(FALSE, <<"1">>, 0)
ConstOf(n, d) == [k |-> "c", n |-> n, d |-> d]
MinusOne == ConstOf(PartOf(TRUE, <<"1">>, 0), UnitPart)
-----------------------------------------------------------------------------
(* What is written.  A parser takes the text and a position and gives         *)
(* [ok, next position, what it read].                                         *)
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
F == [ok |-> FALSE, i |-> 0, v |-> <<>>]
At(T, i) == IF i <= Len(T) THEN T[i] ELSE ""
RECURSIVE Run(_, _, _)
Run(T, i, S) == IF At(T, i) \in S THEN Run(T, i + 1, S) ELSE i
Sk(T, i) == Run(T, i, Space)
Lit(T, i, c) == LET j == Sk(T, i) IN IF At(T, j) = c THEN Ok(j + 1, c) ELSE F
Lit2(T, i, c, d) == LET j == Sk(T, i) IN IF At(T, j) = c /\ At(T, j + 1) = d THEN Ok(j + 2, c) ELSE F
Lit3(T, i, c, d, e) == LET j == Sk(T, i) IN IF At(T, j) = c /\ At(T, j + 1) = d /\ At(T, j + 2) = e THEN Ok(j + 3, c) ELSE F

RECURSIVE NoTail(_, _)
NoTail(T, e) == IF T[e - 1] = "_" THEN NoTail(T, e - 1) ELSE e
Name(T, i) == LET j == Sk(T, i) IN
  IF At(T, j) \notin Alpha THEN F ELSE LET e == NoTail(T, Run(T, j + 1, Word)) IN Ok(e, SubSeq(T, j, e - 1))

(* a decimal number; v.far: of an exponent beyond two digits nothing is said *)
RECURSIVE Count(_)
Count(d) == IF d = <<>> THEN 0 ELSE (Count(SubSeq(d, 1, Len(d) - 1)) * 10) + Val(d[Len(d)])
Real(T, i) ==
  LET j == Sk(T, i)  k == IF At(T, j) \in {"+", "-"} THEN j + 1 ELSE j
      a == Run(T, k, Digit)  dot == At(T, a) = "."  b == IF dot THEN Run(T, a + 1, Digit) ELSE a
      some == a > k \/ (dot /\ b > a + 1)
      x == IF At(T, b) \in {"e", "E"} THEN b + 1 ELSE 0  y == IF x > 0 /\ At(T, x) \in {"+", "-"} THEN x + 1 ELSE x
      z == IF x > 0 THEN Run(T, y, Digit) ELSE 0  exp == x > 0 /\ z > y
      far == exp /\ z - y > 2
      e == IF ~exp \/ far THEN 0 ELSE IF At(T, x) = "-" THEN 0 - Count(SubSeq(T, y, z - 1)) ELSE Count(SubSeq(T, y, z - 1))
      frac == IF dot THEN SubSeq(T, a + 1, b - 1) ELSE <<>> IN
  IF ~some THEN F
  ELSE Ok(IF exp THEN z ELSE b, [x |-> PartOf(At(T, j) = "-", SubSeq(T, k, a - 1) \o frac, e - Len(frac)), far |-> far])
Number(T, i) ==
  LET n == Real(T, i) IN
  IF ~n.ok THEN F
  ELSE LET s == Lit(T, n.i, "/")  d == IF s.ok THEN Real(T, s.i) ELSE F IN
       IF d.ok THEN Ok(d.i, [k |-> "c", n |-> n.v.x, d |-> d.v.x, far |-> n.v.far \/ d.v.far])
       ELSE Ok(n.i, [k |-> "c", n |-> n.v.x, d |-> UnitPart, far |-> n.v.far])
Variable(T, i) ==
  LET n == Name(T, i) IN
  IF ~n.ok THEN F
  ELSE IF At(T, n.i) = "^" /\ At(T, n.i + 1) = "*" THEN Ok(n.i + 2, [k |-> "v", l |-> n.v, cj |-> TRUE])
  ELSE Ok(n.i, [k |-> "v", l |-> n.v, cj |-> FALSE])

(* an index: space, ordinal *)
Label(T, i) ==
  LET j == Sk(T, i)  a == Run(T, j, InIndex)  b == IF At(T, a) = "_" THEN a + 1 ELSE a  c == Run(T, b, Digit) IN
  IF a = j \/ c = b THEN F ELSE Ok(c, [s |-> SubSeq(T, j, a - 1), o |-> IF c - b > 8 THEN 99999999 ELSE Count(SubSeq(T, b, c - 1)), far |-> c - b > 8])
RECURSIVE More(_, _, _, _)
More(X(_, _), T, i, got) == LET s == Lit(T, i, ",")  n == IF s.ok THEN X(T, s.i) ELSE F IN
  IF n.ok THEN More(X, T, n.i, Append(got, n.v)) ELSE Ok(i, got)
List(X(_, _), T, i) == LET n == X(T, i) IN IF n.ok THEN More(X, T, n.i, <<n.v>>) ELSE F
Index(T, i) ==
  LET n == Label(T, i) IN
  IF ~n.ok THEN F
  ELSE LET o == Lit(T, n.i, "<")  l == IF o.ok THEN List(Label, T, o.i) ELSE F  c == IF l.ok THEN Lit(T, l.i, ">") ELSE F IN
       IF c.ok THEN Ok(c.i, [s |-> n.v.s, o |-> n.v.o, far |-> n.v.far, pr |-> l.v]) ELSE Ok(n.i, [s |-> n.v.s, o |-> n.v.o, far |-> n.v.far, pr |-> <<>>])
Some(T, i) == LET l == List(Index, T, i) IN IF l.ok THEN l ELSE Ok(i, <<>>)
Groups(T, i) ==
  LET u == Lit2(T, i, "_", "{")  v == Lit2(T, i, "^", "{")  w == Lit(T, i, "{") IN
  IF u.ok \/ v.ok THEN
    LET a == Some(T, IF u.ok THEN u.i ELSE v.i)  m == Lit3(T, a.i, "}", IF u.ok THEN "^" ELSE "_", "{")
        b == IF m.ok THEN Some(T, m.i) ELSE F  c == IF b.ok THEN Lit(T, b.i, "}") ELSE F IN
    IF ~c.ok THEN F ELSE Ok(c.i, IF u.ok THEN <<a.v, b.v, <<>>>> ELSE <<b.v, a.v, <<>>>>)
  ELSE IF ~w.ok THEN F
  ELSE LET a == Some(T, w.i)  s1 == Lit(T, a.i, ";")  b == IF s1.ok THEN Some(T, s1.i) ELSE Ok(a.i, <<>>)
           s2 == Lit(T, b.i, ";")  x == IF s2.ok THEN Some(T, s2.i) ELSE Ok(b.i, <<>>)  c == Lit(T, x.i, "}") IN
       IF c.ok THEN Ok(c.i, <<a.v, b.v, x.v>>) ELSE F
Letter(T, i, c) == At(T, i) = c /\ At(T, i + 1) \in Upper
Symms(T, i) ==
  IF ~Letter(T, i, ":") THEN Ok(i, <<"", "", "">>)
  ELSE IF ~Letter(T, i + 2, "-") THEN Ok(i + 2, <<T[i + 1], "", "">>)
  ELSE IF ~Letter(T, i + 4, "-") THEN Ok(i + 4, <<T[i + 1], T[i + 3], "">>)
  ELSE Ok(i + 6, <<T[i + 1], T[i + 3], T[i + 5]>>)
Tensor(T, i) ==
  LET n == Name(T, i)  g == IF n.ok THEN Groups(T, n.i) ELSE F IN
  IF ~g.ok THEN F ELSE LET s == Symms(T, g.i) IN Ok(s.i, [k |-> "t", l |-> n.v, b |-> g.v[1], q |-> g.v[2], x |-> g.v[3], sy |-> s.v])
Or(a, b) == IF a.ok THEN a ELSE b
Scalar(T, i) == LET n == Number(T, i) IN IF n.ok THEN n ELSE Variable(T, i)
PowerCore(T, i) ==
  LET o == Lit(T, i, "(")  s == IF o.ok THEN Scalar(T, o.i) ELSE F  c == IF s.ok THEN Lit(T, s.i, ")") ELSE F
      tail(j, base) == LET h == Lit(T, j, "^")  p == IF h.ok THEN Lit(T, h.i, "(") ELSE F  e == IF p.ok THEN Number(T, p.i) ELSE F  q == IF e.ok THEN Lit(T, e.i, ")") ELSE F IN
                       IF q.ok THEN Ok(q.i, [k |-> "^", b |-> base, e |-> e.v, cj |-> FALSE]) ELSE F
      bare == Scalar(T, i) IN
  IF c.ok THEN tail(c.i, s.v) ELSE IF bare.ok THEN tail(bare.i, bare.v) ELSE F
Power(T, i) ==
  LET a == PowerCore(T, i) IN
  IF a.ok THEN a
  ELSE LET o == Lit(T, i, "(")  p == IF o.ok THEN PowerCore(T, o.i) ELSE F  c == IF p.ok THEN Lit(T, p.i, ")") ELSE F  s == IF c.ok THEN Lit2(T, c.i, "^", "*") ELSE F IN
       IF s.ok THEN Ok(s.i, [p.v EXCEPT !.cj = TRUE]) ELSE F
Nullary(T, i) == LET n == Number(T, i)  t == IF n.ok THEN F ELSE Tensor(T, i) IN IF n.ok THEN n ELSE IF t.ok THEN t ELSE Variable(T, i)
RECURSIVE Sum(_, _), Factors(_, _, _), Addends(_, _, _)
Grouped(T, i) ==
  LET p == Power(T, i)  o == IF p.ok THEN F ELSE Lit(T, i, "(") IN
  IF p.ok THEN p
  ELSE IF ~o.ok THEN Nullary(T, i)
  ELSE LET s == Sum(T, o.i)  c == IF s.ok THEN Lit(T, s.i, ")") ELSE F IN IF c.ok THEN Ok(c.i, s.v) ELSE F
(* a signed number is a factor only after an explicit * *)
Factors(T, i, got) ==
  LET s == Lit(T, i, "*")  n == IF s.ok THEN Grouped(T, s.i) ELSE IF At(T, Sk(T, i)) \in {"+", "-"} THEN F ELSE Grouped(T, i) IN
  IF n.ok THEN Factors(T, n.i, Append(got, n.v)) ELSE Ok(i, got)
ProductAt(T, i, minus) ==
  LET f == Grouped(T, i)  r == IF f.ok THEN Factors(T, f.i, <<f.v>>) ELSE F  g == IF minus THEN <<MinusOne>> \o r.v ELSE r.v IN
  IF ~r.ok THEN F ELSE Ok(r.i, IF Len(g) = 1 THEN g[1] ELSE [k |-> "p", f |-> g])
Addends(T, i, got) ==
  LET pl == Lit(T, i, "+")  mi == Lit(T, i, "-") IN
  IF ~pl.ok /\ ~mi.ok THEN Ok(i, got)
  ELSE LET n == ProductAt(T, IF pl.ok THEN pl.i ELSE mi.i, mi.ok) IN IF n.ok THEN Addends(T, n.i, Append(got, n.v)) ELSE F
Sum(T, i) ==
  LET pl == Lit(T, i, "+")  mi == Lit(T, i, "-")
      f == ProductAt(T, IF pl.ok THEN pl.i ELSE IF mi.ok THEN mi.i ELSE i, mi.ok)  r == IF f.ok THEN Addends(T, f.i, <<f.v>>) ELSE F IN
  IF ~r.ok THEN F ELSE Ok(r.i, IF Len(r.v) = 1 THEN r.v[1] ELSE [k |-> "+", a |-> r.v])
Ended(T, i) == Sk(T, i) > Len(T)
None == [k |-> "none"]
Expr(T, i) == LET s == Sum(T, i) IN IF s.ok /\ Ended(T, s.i) THEN Ok(Len(T) + 1, s.v) ELSE IF Ended(T, i) THEN Ok(Len(T) + 1, None) ELSE F
Result(T) ==
  LET t == Tensor(T, 1)  l == IF t.ok THEN t ELSE Variable(T, 1)  e == IF l.ok THEN Lit(T, l.i, "=") ELSE F  a == IF l.ok THEN Lit2(T, l.i, "-", ">") ELSE F
      r == IF e.ok THEN Expr(T, e.i) ELSE IF a.ok THEN Expr(T, a.i) ELSE F IN
  IF r.ok THEN Ok(r.i, [k |-> "=", l |-> l.v, r |-> r.v]) ELSE F
-----------------------------------------------------------------------------
(* What it means: D the symmetries of tensors that do not give them.           *)
Spaces == {<<"i">>, <<"a">>, <<"p">>, <<"K">>, <<"i", "@">>, <<"i", "&">>, <<"m", "#">>}
Fermi == {<<"a">>, <<"%">>}
Bose == {<<"b">>, <<"b", "~">>}
Limit == 100
Range_(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Leaves(_)
Cat(ss) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN <<>> ELSE G(k - 1) \o ss[k] IN G(Len(ss))
Leaves(t) == CASE t.k = "p" -> Cat([n \in DOMAIN t.f |-> Leaves(t.f[n])]) [] t.k = "+" -> Cat([n \in DOMAIN t.a |-> Leaves(t.a[n])])
               [] t.k = "=" -> <<t.l>> \o Leaves(t.r) [] t.k = "none" -> <<>> [] OTHER -> <<t>>
Distinct(s) == \A m, n \in DOMAIN s : m # n => s[m] # s[n]
(* "reject": the text means nothing; "any": it breaks a precondition *)
Worst(a, b) == IF "any" \in {a, b} THEN "any" ELSE IF "reject" \in {a, b} THEN "reject" ELSE "ok"
OfConst(c) == IF "far" \in DOMAIN c /\ c.far THEN "any" ELSE IF AllZero(c.d) THEN "reject" ELSE "ok"
OfLabel(x) == IF "far" \in DOMAIN x /\ x.far THEN "any" ELSE IF x.s \notin Spaces \/ x.o >= Limit THEN "reject" ELSE "ok"
Strip(x) == [s |-> x.s, o |-> x.o]
Whole_(x) == [s |-> x.s, o |-> x.o, pr |-> {Strip(x.pr[n]) : n \in DOMAIN x.pr}]
OfIndex(x) == LET ls == {OfLabel(x)} \cup {OfLabel(x.pr[n]) : n \in DOMAIN x.pr} IN
  IF "any" \in ls \/ (x.pr # <<>> /\ ~Distinct([n \in DOMAIN x.pr |-> Strip(x.pr[n])])) \/ Strip(x) \in {Strip(x.pr[n]) : n \in DOMAIN x.pr} THEN "any" ELSE IF "reject" \in ls THEN "reject" ELSE "ok"
Sy(t, D) == LET p == IF t.sy[1] = "" THEN D[1] ELSE t.sy[1] IN <<p, IF t.sy[2] = "" THEN D[2] ELSE t.sy[2], IF t.sy[3] = "" THEN D[3] ELSE t.sy[3]>>
OfTensor(t, D) ==
  LET ix == Range_(t.b) \cup Range_(t.q) \cup Range_(t.x)  is == {OfIndex(x) : x \in ix}  s == Sy(t, D)
      op == t.l \in Fermi \cup Bose
      letters == op \/ (t.sy[1] \in {"", "A", "S", "N"} /\ t.sy[2] \in {"", "C", "S", "N", "H", "A"} /\ t.sy[3] \in {"", "S", "N"})
      pre == IF op THEN t.x = <<>> /\ t.sy[1] \in {"", IF t.l \in Fermi THEN "A" ELSE "S"} /\ t.sy[3] \in {"", "S"}
             ELSE /\ ~(s[1] # "N" /\ s[3] = "N") /\ ~(s[2] \in {"H", "A"} /\ t.sy[2] # "")
                  /\ \A l \in {t.b, t.q, t.x} : Distinct([n \in DOMAIN l |-> Whole_(l[n])]) IN
  IF "any" \in is \/ (letters /\ ~pre) THEN "any" ELSE IF "reject" \in is \/ ~letters THEN "reject" ELSE "ok"
OfPower(t) == LET b == IF t.b.k = "c" THEN Worst(OfConst(t.b), IF AllZero(t.b.n) THEN "any" ELSE "ok") ELSE "ok" IN
  Worst(b, Worst(OfConst(t.e), IF Whole(t.e.n) /\ Whole(t.e.d) THEN "ok" ELSE "reject"))
OfLeaf(t, D) == CASE t.k = "c" -> OfConst(t) [] t.k = "t" -> OfTensor(t, D) [] t.k = "^" -> OfPower(t) [] OTHER -> "ok"
Verdict(t, D) == LET vs == {OfLeaf(x, D) : x \in Range_(Leaves(t))} IN IF "any" \in vs THEN "any" ELSE IF "reject" \in vs THEN "reject" ELSE "ok"

MkProd(fs) ==
  LET cs == SelectSeq(fs, LAMBDA x : x.k = "c")  rest == SelectSeq(fs, LAMBDA x : x.k # "c")
      RECURSIVE G(_) G(n) == IF n = 0 THEN One ELSE Mul(G(n - 1), cs[n].v)  v == G(Len(cs)) IN
  IF rest = <<>> THEN [k |-> "c", v |-> v] ELSE IF Len(rest) = 1 /\ v = One THEN rest[1] ELSE [k |-> "p", v |-> v, f |-> rest]
(* nothing is said of where among the summands the number is *)
MkSum(as) ==
  LET flat == Cat([n \in DOMAIN as |-> IF as[n].k = "+" THEN as[n].a ELSE <<as[n]>>])
      cs == SelectSeq(flat, LAMBDA x : x.k = "c")  rest == SelectSeq(flat, LAMBDA x : x.k # "c" /\ ~(x.k = "p" /\ x.v = Zero))
      RECURSIVE G(_) G(n) == IF n = 0 THEN Zero ELSE Add(G(n - 1), cs[n].v)  v == G(Len(cs))
      all == IF v = Zero THEN rest ELSE Append(rest, [k |-> "c", v |-> v]) IN
  IF all = <<>> THEN [k |-> "c", v |-> Zero] ELSE IF Len(all) = 1 THEN all[1] ELSE [k |-> "+", a |-> all]
NormIndex(x) == [s |-> x.s, o |-> x.o, pr |-> [n \in DOMAIN x.pr |-> Strip(x.pr[n])]]
NormTensor(t, D) ==
  LET ix(l) == [n \in DOMAIN l |-> NormIndex(l[n])]  s == Sy(t, D) IN
  IF t.l \in Fermi \cup Bose THEN [k |-> "o", l |-> t.l, b |-> ix(t.b), q |-> ix(t.q)]
  ELSE [k |-> "t", l |-> t.l, b |-> ix(t.b), q |-> ix(t.q), x |-> ix(t.x), sy |-> s]
RECURSIVE Norm(_, _)
Norm(t, D) ==
  CASE t.k = "c" -> [k |-> "c", v |-> NumVal(t)]
    [] t.k = "v" -> t
    [] t.k = "t" -> NormTensor(t, D)
    [] t.k = "^" -> [k |-> "^", b |-> IF t.b.k = "c" THEN [k |-> "c", v |-> NumVal(t.b)] ELSE t.b, e |-> NumVal(t.e), cj |-> t.cj]
    [] t.k = "p" -> MkProd([n \in DOMAIN t.f |-> Norm(t.f[n], D)])
    [] t.k = "+" -> MkSum([n \in DOMAIN t.a |-> Norm(t.a[n], D)])
    (* a result without indices is a scalar *)
    [] t.k = "=" -> [k |-> "=", l |-> IF t.l.k = "v" \/ (t.l.b \o t.l.q \o t.l.x = <<>>) THEN [k |-> "v", l |-> t.l.l] ELSE NormTensor(t.l, D), r |-> Norm(t.r, D)]
    [] OTHER -> None
DefSymm == <<"N", "C", "S">>
(* what is seen of reading a text: with p = (parsed) *)
Seen(p, D) == IF ~p.ok THEN [r |-> "reject"] ELSE LET v == Verdict(p.v, D) IN IF v = "any" THEN [done |-> TRUE] ELSE IF v = "reject" THEN [r |-> "reject"] ELSE [r |-> "ok", t |-> Norm(p.v, D)]
Read(T, what, D) == Seen(IF what = "result" THEN Result(T) ELSE Expr(T, 1), D)
=============================================================================
