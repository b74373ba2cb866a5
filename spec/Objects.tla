------------------------------ MODULE Objects ------------------------------
(* What a user can see of the symbolic objects, as records, and batches of   *)
(* objects that differ in little: every object of a batch is new, or differs *)
(* from an earlier one in one place, or repeats it.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Histories

R(S) == RandomElement(S)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Swap(s) == IF Len(s) < 2 THEN s ELSE LET i == R(1..(Len(s) - 1)) IN [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
(* one change of a list: an element replaced by the one given, one added, one lost, two exchanged *)
Edit(s, i, x) == LET w == R(1..8)
  IN CASE w <= 4 -> IF s = <<>> THEN <<x>> ELSE [s EXCEPT ![i] = x]
       [] w = 5 -> Put(s, IF s = <<>> THEN 0 ELSE i, x)
       [] w = 6 -> IF s = <<>> THEN s ELSE Drop(s, i)
       [] OTHER -> Swap(s)
At(s) == IF s = <<>> THEN 0 ELSE R(1..Len(s))

(* ---- index spaces: label, type, quantum numbers; the size is a remark ---- *)
NewSpace(d) == [k |-> "space", key |-> R(1..3), type |-> R(0..3), qn |-> R(0..2), size |-> R(1..2)]
MutSpace(o) == LET w == R(1..4)
  IN CASE w = 1 -> [o EXCEPT !.key = R(1..3)] [] w = 2 -> [o EXCEPT !.type = R(0..3)]
       [] w = 3 -> [o EXCEPT !.qn = R(0..2)] [] OTHER -> [o EXCEPT !.size = R(1..2)]

(* ---- indices: the number of a registered space, an ordinal or none (0), proto-indices; 0: no index ---- *)
Simple(d) == [sp |-> R(1..5), ord |-> R(0..3), pr |-> <<>>]
Protos(d) == LET n == R(0..2) IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Simple(d)>> ELSE <<Simple(d), Simple(d)>>
NewIndex(d) == [Simple(d) EXCEPT !.pr = IF R(1..3) = 1 THEN Protos(d) ELSE <<>>]
MutIndex(o) == LET w == R(1..4)
  IN CASE w = 1 -> [o EXCEPT !.sp = R(1..5)] [] w = 2 -> [o EXCEPT !.ord = R(0..3)]
       [] w = 3 -> [o EXCEPT !.pr = Edit(@, At(@), Simple(0))]
       [] OTHER -> [o EXCEPT !.pr = IF @ = <<>> THEN Protos(0) ELSE LET i == At(@) IN [@ EXCEPT ![i].ord = R(0..3)]]
NoIndex == [sp |-> 0, ord |-> 0, pr |-> <<>>]
(* proto-indices commute *)
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SeenIndex(o) == <<o.sp, o.ord, Bag(o.pr)>>
OkIndex(o) == \A x \in DOMAIN Bag(o.pr) : Bag(o.pr)[x] = 1
Distinct(s) == \A i, j \in 1..Len(s) : i # j /\ s[i].sp # 0 => SeenIndex(s[i]) # SeenIndex(s[j])
SeenList(s) == [i \in 1..Len(s) |-> SeenIndex(s[i])]
Slots(n, null) == [i \in 1..n |-> IF null /\ R(1..5) = 1 THEN NoIndex ELSE NewIndex(0)]
EditSlots(s, null) == LET i == At(s) IN Edit(s, i, IF null /\ R(1..5) = 1 THEN NoIndex ELSE IF i = 0 \/ R(1..3) = 1 \/ s[i].sp = 0 THEN NewIndex(0) ELSE MutIndex(s[i]))

(* ---- operators: statistics, action, index ---- *)
NewOp(s) == [k |-> "op", s |-> s, act |-> R(1..2), i |-> NewIndex(0)]
MutOp(o) == LET w == R(1..3) IN CASE w = 1 -> [o EXCEPT !.act = R(1..2)] [] w = 2 -> [o EXCEPT !.s = R(1..2)] [] OTHER -> [o EXCEPT !.i = MutIndex(@)]
SeenOp(o) == <<o.s, o.act, SeenIndex(o.i)>>
NewOperator(d) == LET s == R(1..2) IN [k |-> "operator", s |-> s, ops |-> [i \in 1..R(0..3) |-> NewOp(s)]]
SameStat(s, ops) == [i \in 1..Len(ops) |-> [ops[i] EXCEPT !.s = s]]
MutOperator(o) == LET t == IF R(1..4) = 1 THEN R(1..2) ELSE o.s
                      i == At(o.ops)
                      x == IF i = 0 \/ R(1..3) = 1 THEN NewOp(t) ELSE MutOp(o.ops[i])
                  IN [o EXCEPT !.s = t, !.ops = SameStat(t, IF R(1..4) = 1 THEN @ ELSE Edit(@, i, x))]
NewNop(d) == [k |-> "nop", s |-> R(1..2), vac |-> R(1..2), cre |-> Slots(R(0..2), FALSE), ann |-> Slots(R(0..2), FALSE)]
MutNop(o) == LET w == R(1..6)
  IN CASE w = 1 -> [o EXCEPT !.s = R(1..2)] [] w = 2 -> [o EXCEPT !.vac = R(1..2)]
       [] w = 3 -> [o EXCEPT !.cre = EditSlots(@, FALSE)] [] w = 4 -> [o EXCEPT !.ann = EditSlots(@, FALSE)]
       [] w = 5 -> [o EXCEPT !.cre = o.ann, !.ann = o.cre]
       [] OTHER -> IF o.cre = <<>> THEN o ELSE [o EXCEPT !.cre = Tail(@), !.ann = <<Head(o.cre)>> \o @]
NewSeq(d) == LET s == R(1..2) v == R(1..2) IN [k |-> "nopseq", s |-> s, vac |-> v, a |-> [i \in 1..R(0..3) |-> [NewNop(0) EXCEPT !.s = s, !.vac = v]]]
MutSeq(o) == LET t == IF R(1..4) = 1 THEN R(1..2) ELSE o.s
                 v == IF R(1..4) = 1 THEN R(1..2) ELSE o.vac
                 i == At(o.a)
                 x == IF i = 0 \/ R(1..3) = 1 THEN NewNop(0) ELSE MutNop(o.a[i])
                 b == IF R(1..4) = 1 THEN o.a ELSE Edit(o.a, i, x)
             IN [o EXCEPT !.s = t, !.vac = v, !.a = [j \in 1..Len(b) |-> [b[j] EXCEPT !.s = t, !.vac = v]]]

(* ---- tensors ---- *)
NewTensor(d) == LET sym == R({"n", "n", "a", "s"})
                    n == R(0..2)
                IN [k |-> "tensor", label |-> R(1..2), b |-> Slots(n, sym = "n"), q |-> Slots(IF sym = "n" THEN n ELSE R(0..2), sym = "n"), x |-> Slots(R(0..1), FALSE),
                    sym |-> sym, bk |-> R({"n", "c", "s"}), col |-> IF sym = "n" THEN R({"n", "s"}) ELSE "s"]
MutTensor(o) == LET w == R(1..9) null == o.sym = "n"
  IN CASE w = 1 -> [o EXCEPT !.label = R(1..2)] [] w = 2 -> [o EXCEPT !.sym = R({"n", "a", "s"})]
       [] w = 3 -> [o EXCEPT !.bk = R({"n", "c", "s"})] [] w = 4 -> [o EXCEPT !.col = R({"n", "s"})]
       [] w = 5 -> [o EXCEPT !.b = EditSlots(@, null)] [] w = 6 -> [o EXCEPT !.q = EditSlots(@, null)]
       [] w = 7 -> [o EXCEPT !.x = EditSlots(@, FALSE)]
       [] w = 8 -> [o EXCEPT !.b = o.q, !.q = o.b]
       [] OTHER -> IF o.q = <<>> THEN o ELSE [o EXCEPT !.x = @ \o <<o.q[Len(o.q)]>>, !.q = Drop(@, Len(@))]
Has0(s) == \E i \in 1..Len(s) : s[i].sp = 0
OkTensor(o) ==
  /\ Distinct(o.b) /\ Distinct(o.q) /\ Distinct(o.x) /\ ~Has0(o.x)
  /\ \A s \in {o.b, o.q, o.x} : \A i \in 1..Len(s) : OkIndex(s[i])
  /\ IF o.sym = "n" THEN /\ Len(o.b) = Len(o.q) /\ \A i \in 1..Len(o.b) : o.b[i].sp # 0 \/ o.q[i].sp # 0
     ELSE o.col = "s" /\ ~Has0(o.b) /\ ~Has0(o.q)
(* columns that commute: full ones come first, then those of the bra, then those of the ket; only inner gaps are kept *)
Sel(s, t, P(_, _)) == LET ix == {i \in 1..Len(s) : P(s[i].sp, t[i].sp)}
                         rank == [i \in ix |-> Cardinality({j \in ix : j <= i})]
                     IN [n \in 1..Cardinality(ix) |-> s[CHOOSE i \in ix : rank[i] = n]]
Full(x, y) == x # 0 /\ y # 0
First(x, y) == x # 0 /\ y = 0
Nulls(n) == [i \in 1..n |-> NoIndex]
SeenSlots(o) ==
  IF o.sym = "n" /\ o.col = "s" /\ (Has0(o.b) \/ Has0(o.q))
  THEN LET bo == Sel(o.b, o.q, First) qo == Sel(o.q, o.b, First)
       IN <<SeenList(Sel(o.b, o.q, Full) \o bo), SeenList(Sel(o.q, o.b, Full) \o Nulls(Len(bo)) \o qo)>>
  ELSE <<SeenList(o.b), SeenList(o.q)>>

(* ---- numbers, variables, powers ---- *)
NewNum(d) == [n |-> R(-3..3), d |-> R(1..4)]
Gcd(a, b) == CHOOSE g \in 1..4 : a % g = 0 /\ b % g = 0 /\ \A h \in (g + 1)..4 : ~(a % h = 0 /\ b % h = 0)
Red(x) == LET g == Gcd(IF x.n < 0 THEN -x.n ELSE x.n, x.d) IN IF x.n = 0 THEN <<0, 1>> ELSE <<IF x.n < 0 THEN -((-x.n) \div g) ELSE x.n \div g, x.d \div g>>
NewConst(d) == [k |-> "const", re |-> NewNum(0), im |-> IF R(1..2) = 1 THEN [n |-> 0, d |-> 1] ELSE NewNum(0)]
MutConst(o) == LET w == R(1..4) IN CASE w = 1 -> [o EXCEPT !.re = NewNum(0)] [] w = 2 -> [o EXCEPT !.im = NewNum(0)]
   [] w = 3 -> [o EXCEPT !.re = [n |-> -@.n, d |-> @.d]] [] OTHER -> IF o.re.d <= 2 THEN [o EXCEPT !.re = [n |-> 2 * @.n, d |-> 2 * @.d]] ELSE o
NewVar(d) == [k |-> "var", label |-> R(1..3), conj |-> R(0..1)]
MutVar(o) == IF R(1..2) = 1 THEN [o EXCEPT !.label = R(1..3)] ELSE [o EXCEPT !.conj = 1 - @]
NewBase(d) == IF R(1..2) = 1 THEN NewVar(0) ELSE NewConst(0)
NewPower(d) == [k |-> "power", a |-> <<NewBase(0)>>, e |-> NewNum(0), conj |-> R(0..1)]
MutPower(o) == LET w == R(1..4) IN CASE w = 1 -> [o EXCEPT !.a = <<NewBase(0)>>] [] w = 2 -> [o EXCEPT !.e = NewNum(0)] [] w = 3 -> [o EXCEPT !.conj = 1 - @]
   [] OTHER -> [o EXCEPT !.a = <<IF @[1].k = "var" THEN MutVar(@[1]) ELSE MutConst(@[1])>>]
SeenConst(o) == <<Red(o.re), Red(o.im)>>
Zero(o) == o.k = "const" /\ o.re.n = 0 /\ o.im.n = 0
OkPower(o) == Zero(o.a[1]) => o.e.n >= 0

(* ---- products and sums; their parts are neither numbers nor objects of the same kind ---- *)
RECURSIVE NewX(_), MutX(_), SeenX(_), OkX(_), NewPart(_, _)
Kinds == {"operator", "nop", "tensor", "tensor", "var", "power", "prod", "sum", "const"}
NewX(d) == LET k == R(IF d = 0 THEN Kinds \ {"prod", "sum"} ELSE IF R(1..2) = 1 THEN {"prod", "sum"} ELSE Kinds)
  IN CASE k = "operator" -> NewOperator(d) [] k = "nop" -> NewNop(d) [] k = "nopseq" -> NewSeq(d) [] k = "tensor" -> NewTensor(d) [] k = "var" -> NewVar(d)
       [] k = "power" -> NewPower(d) [] k = "const" -> NewConst(d)
       [] OTHER -> [k |-> k, c |-> NewConst(d), a |-> [i \in 1..R(0..3) |-> NewPart(k, d - 1)]]
NewPart(k, d) == LET x == NewX(d) IN IF x.k = k \/ x.k = "const" THEN NewVar(0) ELSE x
MutX(o) == LET w == R(1..8)
  IN CASE o.k = "operator" -> MutOperator(o) [] o.k = "nop" -> MutNop(o) [] o.k = "nopseq" -> MutSeq(o) [] o.k = "tensor" -> MutTensor(o) [] o.k = "var" -> MutVar(o)
       [] o.k = "power" -> MutPower(o) [] o.k = "const" -> MutConst(o) [] o.k = "space" -> MutSpace(o)
       [] o.k = "op" -> MutOp(o) [] o.k = "index" -> [o EXCEPT !.i = MutIndex(@)]
       [] OTHER -> IF w = 1 THEN [o EXCEPT !.k = IF \E i \in 1..Len(o.a) : o.a[i].k \in {"prod", "sum"} THEN @ ELSE R({"prod", "sum"})]
                   ELSE IF w <= 3 THEN [o EXCEPT !.c = MutConst(@)]
                   ELSE LET i == At(o.a)
                            x == IF i = 0 \/ R(1..4) = 1 THEN NewPart(o.k, 1) ELSE MutX(o.a[i])
                        IN [o EXCEPT !.a = IF x.k = o.k THEN @ ELSE Edit(@, i, x)]
SeenX(o) ==
  CASE o.k = "space" -> <<o.k, o.key, o.type, o.qn>>
    [] o.k = "index" -> <<o.k, SeenIndex(o.i)>>
    [] o.k = "op" -> <<o.k, SeenOp(o)>>
    [] o.k = "operator" -> <<o.k, o.s, [i \in 1..Len(o.ops) |-> SeenOp(o.ops[i])]>>
    [] o.k = "nop" -> <<o.k, o.s, o.vac, SeenList(o.cre), SeenList(o.ann)>>
    [] o.k = "nopseq" -> <<o.k, o.s, IF o.a = <<>> THEN 0 ELSE o.vac, [i \in 1..Len(o.a) |-> SeenX(o.a[i])]>>
    [] o.k = "tensor" -> <<o.k, o.label, SeenSlots(o), SeenList(o.x), o.sym, o.bk, o.col>>
    [] o.k = "const" -> <<o.k, SeenConst(o)>>
    [] o.k = "var" -> <<o.k, o.label, o.conj>>
    [] o.k = "power" -> <<o.k, SeenX(o.a[1]), Red(o.e), o.conj>>
    [] o.k = "prod" -> <<o.k, SeenConst(o.c), [i \in 1..Len(o.a) |-> SeenX(o.a[i])]>>
    (* the number of a sum is its last summand, if it is not zero *)
    [] o.k = "sum" -> <<o.k, SeenConst(o.c), [i \in 1..Len(o.a) |-> SeenX(o.a[i])]>>
OkX(o) ==
  CASE o.k = "index" -> OkIndex(o.i)
    [] o.k = "op" -> OkIndex(o.i)
    [] o.k = "operator" -> \A i \in 1..Len(o.ops) : OkIndex(o.ops[i].i)
    [] o.k = "nop" -> \A s \in {o.cre, o.ann} : Distinct(s) /\ \A i \in 1..Len(s) : OkIndex(s[i])
    [] o.k = "nopseq" -> \A i \in 1..Len(o.a) : OkX(o.a[i])
    [] o.k = "tensor" -> OkTensor(o)
    [] o.k = "power" -> OkPower(o)
    [] o.k \in {"prod", "sum"} -> /\ \A i \in 1..Len(o.a) : OkX(o.a[i]) /\ o.a[i].k \notin {"const", o.k}
                                  (* a product that is zero, or a power of zero, is no summand *)
                                  /\ o.k = "sum" => \A i \in 1..Len(o.a) : ~(o.a[i].k = "prod" /\ Zero(o.a[i].c)) /\ ~(o.a[i].k = "power" /\ Zero(o.a[i].a[1]))
    [] OTHER -> TRUE

Families == {"space", "index", "op", "operator", "nop", "nopseq", "tensor", "scalar", "sum", "mixed"}
New(f) == CASE f = "space" -> NewSpace(0) [] f = "index" -> [k |-> "index", i |-> NewIndex(0)] [] f = "op" -> NewOp(R(1..2))
            [] f = "operator" -> NewOperator(0) [] f = "nop" -> NewNop(0) [] f = "nopseq" -> NewSeq(0) [] f = "tensor" -> NewTensor(0)
            [] f = "scalar" -> IF R(1..3) = 1 THEN NewConst(0) ELSE IF R(1..2) = 1 THEN NewVar(0) ELSE NewPower(0)
            [] f = "sum" -> LET k == R({"prod", "sum"}) IN [k |-> k, c |-> NewConst(0), a |-> [i \in 1..R(1..3) |-> NewPart(k, 1)]]
            [] OTHER -> NewX(2)

VARIABLES fam, h
vars == <<fam, h>>
Init == fam \in Families /\ h = <<>>
RECURSIVE Draw(_)
Draw(n) == LET o == IF h # <<>> /\ R(1..8) > 1
                    THEN LET p == h[R(1..Len(h))].o IN IF R(1..8) = 1 THEN p ELSE IF R(1..4) = 1 THEN MutX(MutX(p)) ELSE MutX(p)
                    ELSE New(fam)
           IN IF OkX(o) THEN o ELSE Draw(n + 1)
Next == \/ /\ Len(h) < Steps
           /\ h' = Append(h, [op |-> fam, o |-> Draw(0)]) /\ UNCHANGED fam
        \/ Finish(h) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
