---------------------------- MODULE ExprHistory ----------------------------
(* Expression objects under in-place mutation (core/expressions): what each  *)
(* object contains after every history of operations, which handles share an *)
(* object and which do not, and which objects are equal.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Histories

Slots == 1..3
(* Gaussian integers stand for the exact scalars *)
Mul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Conj(a) == <<a[1], -a[2]>>
One == <<1, 0>>
Zero == <<0, 0>>

(* contents: trees *)
C(s) == [k |-> "c", s |-> s]
V(l) == [k |-> "v", l |-> l, cj |-> FALSE]
T(l, b, q, bk) == [k |-> "t", l |-> l, dag |-> FALSE, b |-> b, q |-> q, bk |-> bk]
Pw(v, n) == [k |-> "^", b |-> v, n |-> n, cj |-> FALSE]
Pr(s, f) == [k |-> "p", s |-> s, f |-> f]
Sm(a) == [k |-> "+", a |-> a]

Leaves == {C(<<2, 0>>), C(<<-1, 0>>), C(<<0, 1>>), C(<<3, 0>>), V("a"), V("b"), Pw(V("a"), 2), Pw(V("b"), 3),
           T("g", <<"i_1">>, <<"a_1">>, "N"), T("g", <<"a_1">>, <<"i_1">>, "N"), T("h", <<"i_1">>, <<"i_2">>, "C"),
           T("f", <<"i_1", "i_2">>, <<"a_1", "a_2">>, "S")}

RECURSIVE Size(_), Sizes(_), Peak(_)
Sizes(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sizes(Tail(q))
Size(e) == 1 + (IF e.k = "p" THEN Sizes(e.f) ELSE IF e.k = "+" THEN Sizes(e.a) ELSE 0)
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Peak(e) == IF e.k = "c" THEN MaxOf({Abs(e.s[1]), Abs(e.s[2])})
           ELSE IF e.k = "p" THEN MaxOf({Abs(e.s[1]), Abs(e.s[2])} \cup {Peak(e.f[n]) : n \in DOMAIN e.f})
           ELSE IF e.k = "+" THEN MaxOf({0} \cup {Peak(e.a[n]) : n \in DOMAIN e.a})
           ELSE IF e.k = "^" THEN e.n ELSE 0
Small(e) == Size(e) <= 16 /\ Peak(e) <= 300

IsZero(e) == (e.k \in {"c", "p"}) /\ e.s = Zero

(* appending to a product: fl = "R" flatten completely, "O" one level, "N" not *)
RECURSIVE PApp(_, _, _, _), PAppAll(_, _, _)
PApp(p, c, e, fl) ==
  LET p1 == [p EXCEPT !.s = Mul(@, c)] IN
  IF e.k = "c" THEN [p1 EXCEPT !.s = Mul(@, e.s)]
  ELSE IF e.k = "p" /\ fl # "N"
       THEN PAppAll([p1 EXCEPT !.s = Mul(@, e.s)], e.f, IF fl = "O" THEN "N" ELSE "R")
  ELSE [p1 EXCEPT !.f = Append(@, e)]
PAppAll(p, q, fl) == IF q = <<>> THEN p ELSE PAppAll(PApp(p, One, Head(q), fl), Tail(q), fl)
EmptyProduct == Pr(One, <<>>)
MkProd(c, q) == PAppAll(Pr(c, <<>>), q, "R")
(* prepending keeps the order of the factors put in front *)
PPre(p, c, e, fl) ==
  LET front == PApp(EmptyProduct, c, e, fl)
  IN Pr(Mul(p.s, front.s), front.f \o p.f)

RECURSIVE SApp(_, _), SAppAll(_, _)
ConstAt(a) == {n \in DOMAIN a : a[n].k = "c"}
SApp(s, e) ==
  IF e.k = "+" THEN SAppAll(s, e.a)
  ELSE IF IsZero(e) THEN s
  ELSE IF e.k = "c" /\ ConstAt(s.a) # {}
       THEN LET n == CHOOSE n \in ConstAt(s.a) : TRUE IN [s EXCEPT !.a[n].s = Add(@, e.s)]
  ELSE [s EXCEPT !.a = Append(@, e)]
SAppAll(s, q) == IF q = <<>> THEN s ELSE SAppAll(SApp(s, Head(q)), Tail(q))
MkSum(q) == SAppAll(Sm(<<>>), q)
SPre(s, e) ==
  IF e.k = "+" THEN LET front == MkSum(e.a)
                        cs == {n \in DOMAIN front.a : front.a[n].k = "c"}
                    IN IF cs = {} \/ ConstAt(s.a) = {} THEN Sm(front.a \o s.a)
                       ELSE SApp(Sm(SelectSeq(front.a, LAMBDA x : x.k # "c") \o s.a), front.a[CHOOSE n \in cs : TRUE])
  ELSE IF IsZero(e) THEN s
  ELSE IF e.k = "c" /\ ConstAt(s.a) # {} THEN SApp(s, e)
  ELSE Sm(<<e>> \o s.a)
MinusOf(e) == IF e.k = "c" THEN C(Neg(e.s)) ELSE MkProd(<<-1, 0>>, <<e>>)

RECURSIVE Adj(_)
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
Adj(e) ==
  IF e.k = "c" THEN C(Conj(e.s))
  ELSE IF e.k \in {"v", "^"} THEN [e EXCEPT !.cj = ~@]
  ELSE IF e.k = "t" THEN [e EXCEPT !.b = e.q, !.q = e.b, !.dag = IF e.bk = "N" THEN ~@ ELSE @]
  ELSE IF e.k = "p" THEN MkProd(Conj(e.s), [n \in 1..Len(e.f) |-> Adj(Rev(e.f)[n])])
  ELSE MkSum([n \in 1..Len(e.a) |-> Adj(e.a[n])])

(* x *= y etc. on handles: in place for a product or sum, else a new object *)
InPlace(o, x) == CASE o = "*" -> x.k = "p" [] OTHER -> x.k = "+"
OpAssign(o, x, y) ==
  IF x.k = "c" /\ y.k = "c"
  THEN C(CASE o = "*" -> Mul(x.s, y.s) [] o = "+" -> Add(x.s, y.s) [] o = "-" -> Add(x.s, Neg(y.s)))
  ELSE CASE o = "*" -> IF x.k = "p" THEN PApp(x, One, y, "R") ELSE MkProd(One, <<x, y>>)
         [] o = "+" -> IF x.k = "+" THEN SApp(x, y) ELSE MkSum(<<x, y>>)
         [] o = "-" -> IF x.k = "+" THEN SApp(x, MinusOf(y)) ELSE MkSum(<<x, MkProd(<<-1, 0>>, <<y>>)>>)
Binary(o, x, y) ==
  IF o = "*" THEN (IF x.k = "c" /\ y.k = "c" THEN C(Mul(x.s, y.s))
                   ELSE IF x.k = "p" THEN PApp(x, One, y, "R")
                   ELSE IF y.k = "p" THEN PPre(y, One, x, "R")
                   ELSE MkProd(One, <<x, y>>))
  ELSE IF o = "+" THEN (IF x.k = "+" THEN SApp(x, y) ELSE IF y.k = "+" THEN SPre(y, x) ELSE MkSum(<<x, y>>))
  ELSE (IF x.k = "+" THEN SApp(x, MinusOf(y)) ELSE MkSum(<<x, MinusOf(y)>>))

VARIABLES slot,  \* handle -> object
          obj,   \* the contents of every object made so far
          h
vars == <<slot, obj, h>>
At(k) == obj[slot[k]]
See(s, o) == [tree |-> [k \in Slots |-> o[s[k]]],
              eq |-> [k \in Slots |-> [j \in Slots |-> o[s[k]] = o[s[j]]]]]
Log(op) == /\ h' = Append(h, op @@ [look |-> RandomElement(BOOLEAN), see |-> See(slot', obj')])
           /\ \A n \in DOMAIN obj' : Small(obj'[n])
Put(k, e) == obj' = Append(obj, e) /\ slot' = [slot EXCEPT ![k] = Len(obj) + 1]
Change(k, e) == obj' = [obj EXCEPT ![slot[k]] = e] /\ UNCHANGED slot

Init == /\ slot = [k \in Slots |-> k] /\ h = <<>>
        /\ obj = <<V("a"), T("g", <<"i_1">>, <<"a_1">>, "N"), C(<<2, 0>>)>>

Fresh(k, e) == Put(k, e) /\ Log([op |-> "fresh", k |-> k, e |-> e])
Alias(k, j) == k # j /\ slot' = [slot EXCEPT ![k] = slot[j]] /\ UNCHANGED obj /\ Log([op |-> "alias", k |-> k, j |-> j])
Clone(k, j) == k # j /\ Put(k, At(j)) /\ Log([op |-> "clone", k |-> k, j |-> j])
Assign(o, k, j) == LET e == OpAssign(o, At(k), At(j)) IN
  /\ IF InPlace(o, At(k)) THEN Change(k, e) ELSE Put(k, e)
  /\ Log([op |-> "assign", o |-> o, k |-> k, j |-> j])
Make(o, k, i, j) == Put(k, Binary(o, At(i), At(j))) /\ Log([op |-> "make", o |-> o, k |-> k, i |-> i, j |-> j])
Consts == {<<2, 0>>, <<-1, 0>>, <<0, 1>>, <<1, 0>>, <<0, 0>>}
Scale(k, c) == At(k).k = "p" /\ Change(k, [At(k) EXCEPT !.s = Mul(@, c)]) /\ Log([op |-> "scale", k |-> k, c |-> c])
PAppend(k, c, j, fl) == At(k).k = "p" /\ Change(k, PApp(At(k), c, At(j), fl)) /\ Log([op |-> "pappend", k |-> k, c |-> c, j |-> j, fl |-> fl])
PPrepend(k, c, j, fl) == At(k).k = "p" /\ Change(k, PPre(At(k), c, At(j), fl)) /\ Log([op |-> "pprepend", k |-> k, c |-> c, j |-> j, fl |-> fl])
SAppend(k, j) == At(k).k = "+" /\ Change(k, SApp(At(k), At(j))) /\ Log([op |-> "sappend", k |-> k, j |-> j])
SPrepend(k, j) == At(k).k = "+" /\ Change(k, SPre(At(k), At(j))) /\ Log([op |-> "sprepend", k |-> k, j |-> j])
Adjoint(k) == Change(k, Adj(At(k))) /\ Log([op |-> "adjoint", k |-> k])
(* in place on the object itself, not the handle *)
ConstOp(o, k, j) == At(k).k = "c" /\ At(j).k = "c" /\ Change(k, OpAssign(o, At(k), At(j))) /\ Log([op |-> "constop", o |-> o, k |-> k, j |-> j])
SetLabel(k, l) == At(k).k = "v" /\ At(k).l # l /\ Change(k, [At(k) EXCEPT !.l = l]) /\ Log([op |-> "label", k |-> k, l |-> l])
Conjugate(k) == At(k).k \in {"v", "^"} /\ Change(k, Adj(At(k))) /\ Log([op |-> "conj", k |-> k])
(* combining powers of one base, in place *)
PowMul(k, j) == /\ At(k).k = "^"
                /\ \/ At(j).k = "^" /\ At(j).b = At(k).b /\ At(j).cj = At(k).cj /\ Change(k, [At(k) EXCEPT !.n = @ + At(j).n])
                   \/ At(j).k = "v" /\ At(j).l = At(k).b.l /\ At(j).cj = At(k).cj /\ Change(k, [At(k) EXCEPT !.n = @ + 1])
                /\ Log([op |-> "powmul", k |-> k, j |-> j])
(* adding a product with the same factors *)
AddIdentical(k, j) == /\ At(k).k = "p" /\ At(j).k = "p" /\ At(k).f = At(j).f /\ At(k).f # <<>> /\ slot[k] # slot[j]
                      /\ Change(k, [At(k) EXCEPT !.s = Add(@, At(j).s)]) /\ Log([op |-> "addid", k |-> k, j |-> j])
(* changing a part of an object through its iterators; kinds of summands stay *)
Parts(e) == IF e.k = "p" THEN e.f ELSE IF e.k = "+" THEN e.a ELSE <<>>
WithPart(e, n, x) == IF e.k = "p" THEN [e EXCEPT !.f[n] = x] ELSE [e EXCEPT !.a[n] = x]
PartAdjoint(k, n) == /\ n \in DOMAIN Parts(At(k))
  /\ Change(k, WithPart(At(k), n, Adj(Parts(At(k))[n]))) /\ Log([op |-> "padj", k |-> k, n |-> n])
PartScale(k, n, c) == /\ n \in DOMAIN Parts(At(k)) /\ Parts(At(k))[n].k = "p"
  /\ Change(k, WithPart(At(k), n, [Parts(At(k))[n] EXCEPT !.s = Mul(@, c)])) /\ Log([op |-> "pscale", k |-> k, n |-> n, c |-> c])
PartReplace(k, n, j) == /\ n \in DOMAIN Parts(At(k)) /\ At(j).k \notin {"c", "+"} /\ ~IsZero(At(j)) /\ Parts(At(k))[n].k # "c"
  /\ (At(k).k = "p" => At(j).k # "p")
  /\ Change(k, WithPart(At(k), n, At(j))) /\ Log([op |-> "preplace", k |-> k, n |-> n, j |-> j])

P(S) == Choose(S)
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<slot, obj>>
        \/ /\ Len(h) < Steps
           /\ \E k \in P(Slots), j \in P(Slots), i \in P(Slots), c \in P(Consts), fl \in P({"R", "O", "N"}), o \in P({"*", "+", "-"}), n \in P(1..4), e \in P(Leaves) :
              \/ Fresh(k, e)
              \/ Alias(k, j)
              \/ Clone(k, j)
              \/ Assign("*", k, j) \/ Assign("+", k, j) \/ Assign("-", k, j)
              \/ Make("*", k, i, j) \/ Make("+", k, i, j) \/ Make("-", k, i, j)
              \/ Scale(k, c)
              \/ PAppend(k, c, j, fl) \/ PPrepend(k, c, j, fl)
              \/ SAppend(k, j) \/ SPrepend(k, j)
              \/ Adjoint(k)
              \/ ConstOp(o, k, j)
              \/ SetLabel(k, IF c[1] = 2 THEN "b" ELSE "a") \/ Conjugate(k)
              \/ PowMul(k, j)
              \/ AddIdentical(k, j)
              \/ PartAdjoint(k, n) \/ PartScale(k, n, IF c = Zero THEN <<-1, 0>> ELSE c) \/ PartReplace(k, n, j)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the specification's own guarantees, over all small histories *)
McLeaves == {V("a"), T("g", <<"i_1">>, <<"a_1">>, "N"), C(<<-1, 0>>)}
McNext == /\ Len(h) < Steps
  /\ \E k \in {1, 2}, j \in {1, 2} :
      \/ \E e \in McLeaves : Put(k, e)
      \/ k # j /\ slot' = [slot EXCEPT ![k] = slot[j]] /\ UNCHANGED obj
      \/ k # j /\ Put(k, At(j))
      \/ \E o \in {"*", "+", "-"} : LET e == OpAssign(o, At(k), At(j)) IN IF InPlace(o, At(k)) THEN Change(k, e) ELSE Put(k, e)
      \/ \E fl \in {"R", "N"} : At(k).k = "p" /\ (Change(k, PApp(At(k), One, At(j), fl)) \/ Change(k, PPre(At(k), One, At(j), fl)))
      \/ Change(k, Adj(At(k)))
  /\ h' = Append(h, 0)
  /\ \A n \in DOMAIN obj' : Small(obj'[n])
McSpec == Init /\ [][McNext]_vars
McView == <<slot, obj, Len(h)>>
(* only objects reached through the handle that is changed may change *)
OthersKeep == [][\A k \in Slots : (slot'[k] = slot[k] /\ obj'[slot[k]] # obj[slot[k]])
                    => \A j \in Slots : slot[j] # slot[k] => obj'[slot[j]] = obj[slot[j]]]_vars
(* a product never holds a bare constant, a sum at most one, and no sum holds a sum *)
RECURSIVE Wf(_)
Wf(e) == CASE e.k = "p" -> \A n \in DOMAIN e.f : e.f[n].k # "c" /\ Wf(e.f[n])
           [] e.k = "+" -> Cardinality(ConstAt(e.a)) <= 1 /\ \A n \in DOMAIN e.a : e.a[n].k # "+" /\ Wf(e.a[n])
           [] OTHER -> TRUE
WellFormed == \A n \in DOMAIN obj : Wf(obj[n])
RECURSIVE Plain(_)
Plain(e) == ~IsZero(e) /\ \A n \in DOMAIN Parts(e) : Plain(Parts(e)[n]) /\ (e.k = "p" => Parts(e)[n].k # "p")
AdjointTwice == \A n \in DOMAIN obj : Plain(obj[n]) => Adj(Adj(obj[n])) = obj[n]
=============================================================================
