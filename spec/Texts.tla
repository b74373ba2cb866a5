-------------------------------- MODULE Texts --------------------------------
(* Cases for the text form: trees written and read back, other spellings of    *)
(* them, and texts with mistakes in them; and, on all short texts, that what   *)
(* is read is what a declarative grammar derives and survives being written    *)
(* and read again.                                                             *)
EXTENDS Syntax
VARIABLES txt, h
R(S) == TLCEval(RandomElement(S))
Die(n) == R(1..n) = 1
Names == {<<"t">>, <<"g">>, <<"x">>, <<"y">>, <<"t","a","u">>, <<"T","_","1">>, <<"x","2">>, <<"i","n","f","o">>, <<"n","a","n">>, <<"e","1">>, <<"i">>, <<"$">>, <<"t","~">>, <<"t","@">>, <<"A","#">>,
          <<"A">>, <<"N","_","_","b","2">>, <<"I","n","f">>, <<"%","2">>, <<"E">>}
Digits(n) == TLCEval([k \in 1..n |-> IF k = 1 THEN R(Digit \ {"0"}) ELSE R(Digit)])
RPart(neg, e) == PartOf(neg, IF Die(40) THEN <<"0">> ELSE Digits(R({1, 1, 1, 1, 2, 2, 3, 10, 17, 19, 20, 30})), e)
NonZero(x) == IF AllZero(x) THEN PartOf(x.neg, <<"2">>, 0) ELSE x
RConst(z) == LET a == RPart(Die(3), R({0, 0, 0, 0, -1, -2})) b == IF Die(2) THEN UnitPart ELSE NonZero(RPart(FALSE, R({0, 0, 0, 0, -1}))) IN ConstOf(a, b)
RVar(z) == [k |-> "v", l |-> R(Names \cup Fermi \cup Bose), cj |-> Die(3)]
RLabel(n) == [s |-> R(Spaces), o |-> n]
RIndex(n) == LET a == R({1, 1, 5, 5 + (4 * R(0..18))}) m == R({0, 0, 0, 0, 1, 2}) IN
  [s |-> R(Spaces), o |-> a + n, pr |-> TLCEval([k \in 1..m |-> RLabel(88 + (3 * R(0..2)) + k)])]
RBundle(n) == TLCEval([k \in 1..n |-> RIndex(k)])
RTensor(z) == LET p == R({"N", "A", "S"}) IN
  [k |-> "t", l |-> R(Names), b |-> RBundle(R({0, 1, 1, 2, 2, 3})), q |-> RBundle(R({0, 1, 1, 2, 2, 3})), x |-> RBundle(R({0, 0, 0, 1, 2})),
   sy |-> <<p, R({"C", "S", "N"}), IF p = "N" THEN R({"S", "N"}) ELSE "S">>]
ROper(z) == [k |-> "t", l |-> R(Fermi \cup Bose), b |-> RBundle(R(0..2)), q |-> RBundle(R(0..2)), x |-> <<>>, sy |-> <<"", "", "">>]
RPower(z) == [k |-> "^", b |-> IF Die(2) THEN RVar(0) ELSE LET c == RConst(0) IN [c EXCEPT !.n = NonZero(c.n)],
              e |-> ConstOf(PartOf(Die(4), Digits(R({1, 1, 2})), 0), IF Die(2) THEN UnitPart ELSE PartOf(FALSE, Digits(1), 0)), cj |-> Die(3)]
RECURSIVE RTree(_, _)
RTree(kind, depth) ==
  CASE kind = "c" -> RConst(0) [] kind = "v" -> RVar(0) [] kind = "t" -> RTensor(0) [] kind = "o" -> ROper(0) [] kind = "^" -> RPower(0)
    [] kind = "p" -> [k |-> "p", f |-> TLCEval([n \in 1..R({1, 2, 2, 3, 3, 4}) |-> RTree(IF depth = 0 THEN R({"c", "v", "t", "t", "o", "^"}) ELSE R({"c", "v", "t", "t", "o", "^", "p", "+"}), depth - 1)])]
    [] OTHER -> [k |-> "+", a |-> TLCEval([n \in 1..R({2, 2, 3, 4}) |-> RTree(IF depth = 0 THEN R({"c", "v", "t", "^"}) ELSE R({"c", "v", "t", "p", "p", "p", "p", "+"}), depth - 1)])]
RAny(z) == RTree(R({"c", "v", "t", "o", "^", "p", "p", "p", "p", "+", "+", "+", "+"}), R(0..2))
RLhs(z) == IF Die(3) THEN [RVar(0) EXCEPT !.cj = FALSE] ELSE RTensor(0)

(* a spelling of a tree, D the symmetries that need not be given *)
Sp(n) == IF n = 0 THEN <<>> ELSE R({<<>>, <<>>, <<" ">>, <<" ">>, <<" ", " ">>, <<"\t">>, <<"\n">>})
MustSp(n) == R({<<" ">>, <<" ">>, <<" ", "\n">>})
WPart(x) ==
  LET m == x.m n == Len(m) z == IF n <= 0 - x.e THEN [k \in 1..((0 - x.e) - n) |-> "0"] \o m ELSE m  c == Len(z) + x.e  lead == IF Die(8) THEN <<"0">> ELSE <<>> IN
  (IF x.neg THEN <<"-">> ELSE <<>>) \o (IF x.e = 0 THEN lead \o m \o R({<<>>, <<>>, <<>>, <<".">>, <<".", "0">>}) ELSE lead \o SubSeq(z, 1, c) \o <<".">> \o SubSeq(z, c + 1, Len(z)))
IsUnit(x) == x = UnitPart
WConst(c) == IF IsUnit(c.d) /\ ~Die(6) THEN WPart(c.n) ELSE WPart(c.n) \o Sp(1) \o <<"/">> \o Sp(1) \o WPart(c.d)
WVar(v) == v.l \o (IF v.cj THEN <<"^", "*">> ELSE <<>>)
Dec(n) == IF n < 10 THEN <<CHOOSE d \in Digit : Val(d) = n>> ELSE <<CHOOSE d \in Digit : Val(d) = n \div 10, CHOOSE d \in Digit : Val(d) = n % 10>>
WLabel(x) == x.s \o R({<<"_">>, <<>>}) \o (IF Die(10) THEN <<"0">> ELSE <<>>) \o Dec(x.o)
Sep(ws) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN ws[1] ELSE G(k - 1) \o Sp(1) \o <<",">> \o Sp(1) \o ws[k] IN G(Len(ws))
WIndex(x) == WLabel(x) \o (IF x.pr = <<>> THEN <<>> ELSE Sp(1) \o <<"<">> \o Sp(1) \o Sep(TLCEval([n \in DOMAIN x.pr |-> WLabel(x.pr[n])])) \o Sp(1) \o <<">">>)
WBundle(l) == Sp(1) \o Sep(TLCEval([n \in DOMAIN l |-> WIndex(l[n])])) \o Sp(1)
WSymm(t, D) ==
  IF t.l \in Fermi THEN R({<<>>, <<>>, <<":", "A">>, <<":", "A", "-", "C", "-", "S">>})
  ELSE IF t.l \in Bose THEN R({<<>>, <<>>, <<":", "S">>, <<":", "S", "-", "N", "-", "S">>})
  ELSE LET s == t.sy IN
    CASE s = D /\ Die(2) -> <<>> [] s[2] = D[2] /\ s[3] = D[3] /\ Die(2) -> <<":", s[1]>> [] s[3] = D[3] /\ Die(2) -> <<":", s[1], "-", s[2]>> [] OTHER -> <<":", s[1], "-", s[2], "-", s[3]>>
WTensor(t, D) ==
  t.l \o Sp(1) \o
  (IF t.x = <<>> /\ Die(2) THEN IF Die(2) THEN <<"_", "{">> \o WBundle(t.b) \o <<"}", "^", "{">> \o WBundle(t.q) \o <<"}">> ELSE <<"^", "{">> \o WBundle(t.q) \o <<"}", "_", "{">> \o WBundle(t.b) \o <<"}">>
   ELSE <<"{">> \o WBundle(t.b) \o (IF t.q = <<>> /\ t.x = <<>> /\ Die(2) THEN <<>> ELSE <<";">> \o WBundle(t.q) \o (IF t.x = <<>> /\ Die(2) THEN <<>> ELSE <<";">> \o WBundle(t.x))) \o <<"}">>)
  \o WSymm(t, D)
WPower(t) ==
  LET base == IF t.b.k = "c" THEN WConst(t.b) ELSE WVar(t.b)
      core == (IF Die(2) \/ (t.b.k = "c" /\ t.b.n.neg) THEN <<"(">> \o Sp(1) \o base \o Sp(1) \o <<")">> ELSE base) \o Sp(1) \o <<"^">> \o Sp(1) \o <<"(">> \o Sp(1) \o WConst(t.e) \o Sp(1) \o <<")">> IN
  IF t.cj THEN <<"(">> \o Sp(1) \o core \o Sp(1) \o <<")", "^", "*">> ELSE core
Negate(c) == [c EXCEPT !.n.neg = ~@]
RECURSIVE WSum(_, _), WFactor(_, _)
In(ws) == <<"(">> \o Sp(1) \o ws \o Sp(1) \o <<")">>
WFactor(t, D) ==
  CASE t.k = "c" -> IF Die(4) THEN In(WConst(t)) ELSE WConst(t)
    [] t.k \in {"p", "+"} -> In(WSum(t, D))
    [] OTHER -> LET w == IF t.k = "v" THEN WVar(t) ELSE IF t.k = "^" THEN WPower(t) ELSE WTensor(t, D) IN IF Die(6) THEN In(w) ELSE w
Join(w, x) ==
  LET star == w \o Sp(1) \o <<"*">> \o Sp(1) \o x IN
  IF x[1] \in {"-", "+"} THEN star
  ELSE CASE Die(2) -> star [] (x[1] = "(" \/ (w[Len(w)] \in {")", "}"} /\ x[1] \in Alpha)) /\ Die(2) -> w \o x [] OTHER -> w \o MustSp(0) \o x
WProduct(fs, D) == LET ws == TLCEval([n \in DOMAIN fs |-> WFactor(fs[n], D)]) RECURSIVE G(_) G(n) == IF n = 1 THEN ws[1] ELSE Join(G(n - 1), ws[n]) IN G(Len(ws))
One_ == ConstOf(UnitPart, UnitPart)
(* with its sign: sign, the rest *)
WSigned(t, D) ==
  LET fs == IF t.k = "p" THEN t.f ELSE <<t>> minus == Die(3)
      gs == IF fs[1].k = "c" THEN <<IF minus THEN Negate(fs[1]) ELSE fs[1]>> \o Tail(fs) ELSE IF minus THEN <<MinusOne>> \o fs ELSE fs
      hs == IF gs[1] = One_ /\ Len(gs) > 1 /\ Die(2) THEN Tail(gs) ELSE gs IN
  <<IF minus THEN "-" ELSE "+", WProduct(hs, D)>>
WSum(t, D) ==
  LET as == IF t.k = "+" THEN t.a ELSE <<t>>  ws == TLCEval([n \in DOMAIN as |-> WSigned(as[n], D)])
      glue(w) == IF w # <<>> /\ w[Len(w)] \in Upper THEN MustSp(0) ELSE Sp(1)
      RECURSIVE G(_)
      G(n) == IF n = 0 THEN <<>> ELSE LET w == G(n - 1) IN
        IF n = 1 /\ ws[1][1] = "+" /\ ~Die(4) THEN ws[1][2] ELSE w \o glue(w) \o <<ws[n][1]>> \o Sp(1) \o ws[n][2] IN
  G(Len(ws))
WResult(t, D) == Sp(1) \o (IF t.l.k = "v" THEN WVar(t.l) ELSE WTensor(t.l, D)) \o MustSp(0) \o R({<<"=">>, <<"-", ">">>}) \o Sp(1) \o WSum(t.r, D) \o Sp(1)
WText(t, D) == IF t.k = "=" THEN WResult(t, D) ELSE Sp(1) \o WSum(t, D) \o Sp(1)

Opts(z) == IF Die(2) THEN <<"", "", "">> ELSE <<R({"", "N", "A", "S"}), R({"", "C", "S", "N"}), R({"", "S", "N"})>>
Eff(o) == LET p == IF o[1] = "" THEN "N" ELSE o[1] IN <<p, IF o[2] = "" THEN "C" ELSE o[2], IF p # "N" THEN "S" ELSE IF o[3] = "" THEN "S" ELSE o[3]>>
RWhole(z) == IF Die(4) THEN [k |-> "=", l |-> RLhs(0), r |-> RAny(0)] ELSE RAny(0)
What(t) == IF t.k = "=" THEN "result" ELSE "expr"

Alphabet == Space \cup {"(", ")", "{", "}", "<", ">", ";", ",", ":", "*", "^", "/", "=", "+", "-", "_", ".", "~", "@", "#", "$", "%", "a", "b", "e", "i", "K", "t", "A", "S", "N", "0", "1", "2", "7"}
Mutate(w) ==
  LET n == Len(w) k == R(1..(n + 1)) j == R(1..n) how == R(1..7) IN
  CASE how \in {1, 2} -> SubSeq(w, 1, j - 1) \o SubSeq(w, j + 1, n)
    [] how = 3 -> SubSeq(w, 1, j) \o SubSeq(w, j, n)
    [] how = 4 -> SubSeq(w, 1, k - 1) \o <<R(Alphabet)>> \o SubSeq(w, k, n)
    [] how = 5 -> [w EXCEPT ![j] = R(Alphabet)]
    [] how = 6 -> IF j = n THEN w ELSE [w EXCEPT ![j] = w[j + 1], ![j + 1] = w[j]]
    [] OTHER -> IF Die(2) THEN SubSeq(w, 1, j) ELSE SubSeq(w, j, n)
RECURSIVE MutateN(_, _)
MutateN(w, n) == IF n = 0 \/ w = <<>> THEN w ELSE LET v == TLCEval(Mutate(w)) IN MutateN(v, n - 1)

Case(op, more, see) == [op |-> op, see |-> see] @@ more
DoWrite(z) == LET t == TLCEval(RWhole(0)) n == Norm(t, DefSymm) IN
  Case("write", [t |-> t, what |-> What(t)], [t |-> n, again |-> n, equal |-> TRUE])
DoSpell(z) == LET t == TLCEval(RWhole(0)) o == TLCEval(Opts(0)) w == TLCEval(WText(t, Eff(o))) s == TLCEval(Read(w, What(t), Eff(o))) IN
  IF Assert(s = [r |-> "ok", t |-> Norm(t, Eff(o))], <<"a spelling is read as something else", w, s>>) THEN Case("read", [text |-> w, what |-> What(t), opts |-> o], s) ELSE Case("none", [x |-> 0], [x |-> 0])
DoMistake(z) == LET t == TLCEval(RWhole(0)) o == TLCEval(Opts(0)) w == TLCEval(MutateN(WText(t, Eff(o)), R({1, 1, 1, 2, 3}))) what == IF Die(12) THEN R({"result", "expr"}) ELSE What(t) IN
  Case("read", [text |-> w, what |-> what, opts |-> o], Read(w, what, Eff(o)))
Do(kind) == CASE kind = 1 -> DoWrite(0) [] kind = 2 -> DoSpell(0) [] OTHER -> DoMistake(0)
Init == h = <<>> /\ txt = <<>>
Next == /\ UNCHANGED txt
        /\ \/ Finish(h) /\ h' = Append(h, 0)
           \/ /\ Len(h) < Steps
              /\ \E kind \in Choose(1..3) : \E o \in {TLCEval(Do(kind))} : h' = Append(h, o)
Spec == Init /\ [][Next]_<<h, txt>>
-----------------------------------------------------------------------------
(* all short texts: acceptance is derivability in the documented grammar *)
Small == {"a", "2", "-", "*", "(", ")", "/", " "}
ShortSpec == txt = <<>> /\ h = <<>> /\ [][Len(txt) < Steps /\ \E c \in Small : txt' = Append(txt, c) /\ UNCHANGED h]_<<h, txt>>
(* d(i, j): the characters after the first i up to j *)
Blank(T, i, j) == \A k \in (i + 1)..j : T[k] = " "
RECURSIVE GNull(_, _, _), GProd(_, _, _), GSum(_, _, _)
GDig(T, i, j) == i < j /\ \A k \in (i + 1)..j : T[k] = "2"
GReal(T, i, j) == GDig(T, i, j) \/ (i < j /\ T[i + 1] = "-" /\ GDig(T, i + 1, j))
GNum(T, i, j) == GReal(T, i, j) \/ \E m \in (i + 1)..(j - 1) : T[m] = "/" /\ (\E n \in i..(m - 1) : GReal(T, i, n) /\ Blank(T, n, m - 1)) /\ (\E n \in m..j : Blank(T, m, n) /\ GReal(T, n, j))
GVar(T, i, j) == i < j /\ T[i + 1] = "a" /\ \A k \in (i + 2)..j : T[k] \in {"a", "2"}
GNull(T, i, j) == \E m \in i..(j - 1) : Blank(T, i, m) /\ (GNum(T, m, j) \/ GVar(T, m, j) \/ (T[m + 1] = "(" /\ \E n \in (m + 2)..j : T[n] = ")" /\ Blank(T, n, j) /\ \E e \in m..(n - 1) : Blank(T, e, n - 1) /\ GSum(T, m + 1, e)))
(* names and numbers end where their characters do *)
Inside(T, m) == \/ T[m + 1] = "2" /\ T[m] \in {"a", "2"}
                \/ T[m + 1] = "a" /\ \E k \in 1..m : T[k] = "a" /\ \A l \in k..m : T[l] \in {"a", "2"}
GProd(T, i, j) == GNull(T, i, j) \/ \E m \in (i + 1)..(j - 1) : ~Inside(T, m) /\ GProd(T, i, m) /\ (GNull(T, m, j) \/ \E n \in m..(j - 1) : Blank(T, m, n - 1) /\ n > m /\ T[n] = "*" /\ GNull(T, n, j))
GSum(T, i, j) == GProd(T, i, j) \/ \E m \in i..(j - 1) : (Blank(T, i, m) \/ GSum(T, i, m)) /\ \E n \in (m + 1)..(j - 1) : Blank(T, m, n - 1) /\ T[n] = "-" /\ GProd(T, n, j)
Derivable == Expr(txt, 1).ok <=> (Blank(txt, 0, Len(txt)) \/ \E e \in 0..Len(txt) : Blank(txt, e, Len(txt)) /\ GSum(txt, 0, e))
(* the same with a blank after every operator *)
Spread(T) == Cat([k \in DOMAIN T |-> IF T[k] \in {"*", "/", "(", ")"} THEN <<" ", T[k], " ">> ELSE <<T[k]>>])
Blanks == Read(Spread(txt), "expr", DefSymm) = Read(txt, "expr", DefSymm)
(* in parentheses it is the same, and as the right-hand side of a result *)
Parens == LET p == Expr(txt, 1) IN (p.ok /\ p.v # None) => Read(<<"(">> \o txt \o <<")">>, "expr", DefSymm) = Read(txt, "expr", DefSymm)
Assigned == LET p == Read(txt, "expr", DefSymm) q == Read(<<"x", "=">> \o txt, "result", DefSymm) IN IF "r" \in DOMAIN p /\ p.r = "ok" THEN q = [r |-> "ok", t |-> [k |-> "=", l |-> [k |-> "v", l |-> <<"x">>], r |-> p.t]] ELSE q = p
=============================================================================
