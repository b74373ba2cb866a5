---------------------------- MODULE OpRegistry -----------------------------
(* Operator registries and many-body contexts (domain/mbpt/op_registry.hpp,  *)
(* domain/mbpt/context.hpp).  A context refers to a registry; a registry     *)
(* refers to a set of operators, which its copies share and its clones do    *)
(* not.  Scoped contexts are restored when their scope ends.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Histories

Pool == 1..3                                  \* the user's contexts; 0 is the one in force
Labels == {"t", "h", "lambda", "R1"}
Reserved == {"A^", "S^", "P^", "delta", "s"}
Classes == {"ex", "deex", "gen"}
Herms == {"H", "A", "N"}
Fail == "!"
NoCtx == [csv |-> FALSE, reg |-> 0]
MaxRegs == 7
Minimal == [l \in {"h", "g", "f", "theta", "a~", "t", "lambda", "R", "L"} |->
             [c |-> IF l \in {"t", "R"} THEN "ex" ELSE IF l \in {"lambda", "L"} THEN "deex" ELSE "gen", h |-> ""]]
Legacy == [l \in {"h", "f", "f~", "g", "theta", "a~", "t", "lambda", "R", "L", "F", "GR", "C", "gamma", "kappa"} |->
             [c |-> IF l \in {"t", "R"} THEN "ex" ELSE IF l \in {"lambda", "L"} THEN "deex" ELSE "gen", h |-> ""]]
Asked == Labels \cup Reserved \cup DOMAIN Legacy

VARIABLES pool,    \* contexts of the user
          def,     \* the context in force
          scopes,  \* what each live scope restores, innermost last
          regs,    \* registries: which set of operators
          ops,     \* sets of operators: label -> class and explicit hermiticity, if any
          h
vars == <<pool, def, scopes, regs, ops, h>>

Herm(e) == IF e.h # "" THEN e.h ELSE IF e.c = "gen" THEN "H" ELSE "N"
Contents(m) == [l \in DOMAIN m |-> <<m[l].c, Herm(m[l])>>]
Ctx(k, p, d) == IF k = 0 THEN d ELSE p[k]
OpsOf(c, r, o) == o[r[c.reg]]

See(c, r, o) ==
  IF c.reg = 0 THEN [csv |-> c.csv, reg |-> FALSE]
  ELSE LET m == OpsOf(c, r, o) IN
    [csv |-> c.csv, reg |-> TRUE,
     ops |-> {[l |-> l, c |-> m[l].c, h |-> Herm(m[l])] : l \in DOMAIN m}]
(* 1: equal, 0: not, 2: not determined (explicit against implied hermiticity) *)
Same(a, b, r, o) ==
  IF a.csv # b.csv \/ (a.reg = 0) # (b.reg = 0) THEN 0
  ELSE IF a.reg = 0 THEN 1
  ELSE IF OpsOf(a, r, o) = OpsOf(b, r, o) THEN 1
  ELSE IF Contents(OpsOf(a, r, o)) # Contents(OpsOf(b, r, o)) THEN 0 ELSE 2
(* what the context in force says about a label *)
Class(d, r, o, l) == IF l \in Reserved THEN "gen"
  ELSE IF d.reg = 0 THEN Fail ELSE IF l \notin DOMAIN OpsOf(d, r, o) THEN Fail ELSE OpsOf(d, r, o)[l].c
Hermiticity(d, r, o, l) == IF l \in Reserved THEN "H"
  ELSE IF d.reg = 0 THEN Fail ELSE IF l \notin DOMAIN OpsOf(d, r, o) THEN Fail ELSE Herm(OpsOf(d, r, o)[l])
View(p, d, r, o) ==
  [def |-> See(d, r, o),
   pool |-> [k \in Pool |-> See(p[k], r, o)],
   eq |-> [k \in Pool |-> [j \in 1..4 |-> Same(p[k], IF j = 4 THEN d ELSE p[j], r, o)]],
   cls |-> [l \in Asked |-> Class(d, r, o, l)],
   herm |-> [l \in Asked |-> Hermiticity(d, r, o, l)]]

Init == /\ pool = [k \in Pool |-> NoCtx] /\ def = NoCtx
        /\ scopes = <<>> /\ regs = <<>> /\ ops = <<>> /\ h = <<>>
Log(ok, op) == h' = Append(h, op @@ [see |-> [ok |-> ok] @@ View(pool', def', regs', ops')])

(* registries and sets of operators nobody refers to are forgotten *)
UsedRegs == {c.reg : c \in ({pool[k] : k \in Pool} \cup {def} \cup {scopes[n] : n \in DOMAIN scopes})}
FreeReg == (1..MaxRegs) \ UsedRegs
NewReg == CHOOSE n \in FreeReg : \A m \in FreeReg : n <= m
FreeOps == (1..MaxRegs) \ {regs[n] : n \in UsedRegs \ {0}}
NewOps == CHOOSE n \in FreeOps : \A m \in FreeOps : n <= m
Put(s, n, x) == IF n > Len(s) THEN s \o [m \in 1..(n - Len(s)) |-> x] ELSE [s EXCEPT ![n] = x]

Tables == [empty |-> <<>>, minimal |-> Minimal, legacy |-> Legacy]
New(k, what) ==
  /\ IF what = "none" THEN UNCHANGED <<regs, ops>> /\ pool' = [pool EXCEPT ![k] = NoCtx]
     ELSE /\ FreeReg # {} /\ FreeOps # {}
          /\ regs' = Put(regs, NewReg, NewOps) /\ ops' = Put(ops, NewOps, Tables[what])
          /\ pool' = [pool EXCEPT ![k] = [csv |-> FALSE, reg |-> NewReg]]
  /\ UNCHANGED <<def, scopes>> /\ Log(TRUE, [op |-> "new", k |-> k, what |-> what])
Csv(k) == /\ pool' = [pool EXCEPT ![k].csv = ~@] /\ UNCHANGED <<def, scopes, regs, ops>>
          /\ Log(TRUE, [op |-> "csv", k |-> k, x |-> pool'[k].csv])
CopyCtx(k, j) == /\ k # j /\ pool' = [pool EXCEPT ![k] = Ctx(j, pool, def)] /\ UNCHANGED <<def, scopes, regs, ops>>
                 /\ Log(TRUE, [op |-> "copy", k |-> k, j |-> j])
(* a registry of its own for k, with the operators of j: shared or not *)
Own(k, j, how) == LET c == Ctx(j, pool, def) IN
  /\ c.reg # 0 /\ FreeReg # {} /\ FreeOps # {}
  /\ IF how = "copyreg" THEN regs' = Put(regs, NewReg, regs[c.reg]) /\ UNCHANGED ops
     ELSE regs' = Put(regs, NewReg, NewOps) /\ ops' = Put(ops, NewOps, OpsOf(c, regs, ops))
  /\ pool' = [pool EXCEPT ![k] = IF how = "clone" THEN [c EXCEPT !.reg = NewReg] ELSE [pool[k] EXCEPT !.reg = NewReg]]
  /\ UNCHANGED <<def, scopes>> /\ Log(TRUE, [op |-> how, k |-> k, j |-> j])
ShareReg(k, j) == LET c == Ctx(j, pool, def) IN
  /\ c.reg # 0 /\ pool' = [pool EXCEPT ![k].reg = c.reg] /\ UNCHANGED <<def, scopes, regs, ops>>
  /\ Log(TRUE, [op |-> "sharereg", k |-> k, j |-> j])
(* the registry of k becomes a copy, or a clone, of that of j, for all that use it *)
Assign(k, j, how) == LET c == Ctx(k, pool, def)  d == Ctx(j, pool, def) IN
  /\ c.reg # 0 /\ d.reg # 0
  /\ IF how = "assign" THEN regs' = [regs EXCEPT ![c.reg] = regs[d.reg]] /\ UNCHANGED ops
     ELSE /\ FreeOps # {} /\ regs' = [regs EXCEPT ![c.reg] = NewOps] /\ ops' = Put(ops, NewOps, OpsOf(d, regs, ops))
  /\ UNCHANGED <<pool, def, scopes>> /\ Log(TRUE, [op |-> how, k |-> k, j |-> j])

With(m, l, e) == [x \in DOMAIN m \cup {l} |-> IF x = l THEN e ELSE m[x]]
Change(k, ok, new, op) == LET c == Ctx(k, pool, def) IN
  /\ ops' = IF ok THEN [ops EXCEPT ![regs[c.reg]] = new] ELSE ops
  /\ UNCHANGED <<pool, def, scopes, regs>> /\ Log(ok, op @@ [k |-> k])
HasReg(k) == Ctx(k, pool, def).reg # 0
M(k) == OpsOf(Ctx(k, pool, def), regs, ops)
Add(k, l, c, hm) == HasReg(k) /\ Change(k, l \notin Reserved /\ l \notin DOMAIN M(k), With(M(k), l, [c |-> c, h |-> hm]),
                     [op |-> "add", l |-> l, c |-> c, h |-> hm])
SetHerm(k, l, hm) == HasReg(k) /\ LET ok == l \in DOMAIN M(k) IN
   Change(k, ok, IF ok THEN With(M(k), l, [c |-> M(k)[l].c, h |-> hm]) ELSE <<>>, [op |-> "herm", l |-> l, h |-> hm])
Drop(k, l) == HasReg(k) /\ Change(k, l \in DOMAIN M(k), [x \in DOMAIN M(k) \ {l} |-> M(k)[x]], [op |-> "remove", l |-> l])
Purge(k) == HasReg(k) /\ Change(k, TRUE, <<>>, [op |-> "purge"])

SetDefault(k, how) == /\ def' = pool[k] /\ UNCHANGED <<pool, scopes, regs, ops>>
                 /\ Log(TRUE, [op |-> how, k |-> k])
Reset == /\ def' = NoCtx /\ UNCHANGED <<pool, scopes, regs, ops>> /\ Log(TRUE, [op |-> "reset"])
Enter(k, how) == /\ Len(scopes) < 4
  /\ scopes' = Append(scopes, def) /\ def' = Ctx(k, pool, def) /\ UNCHANGED <<pool, regs, ops>>
  /\ Log(TRUE, [op |-> how, k |-> k])
Leave(n) == /\ n <= Len(scopes)
  /\ def' = scopes[Len(scopes) - n + 1] /\ scopes' = SubSeq(scopes, 1, Len(scopes) - n)
  /\ UNCHANGED <<pool, regs, ops>> /\ Log(TRUE, [op |-> "leave", n |-> n])

Every == Pool \cup {0}
Known(k) == LET d == IF HasReg(k) THEN DOMAIN M(k) ELSE {} IN
  IF d # {} /\ RandomElement(1..3) # 1 THEN d ELSE Asked
NewLabel == IF RandomElement(1..6) = 1 THEN Asked ELSE Labels
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<pool, def, scopes, regs, ops>>
        \/ /\ Len(h) < Steps
           /\ \/ \E k \in Choose(Pool), w \in Choose({"none", "empty", "minimal", "legacy"}) : New(k, w)
              \/ \E k \in Choose(Pool) : Csv(k)
              \/ \E k \in Choose(Pool), j \in Choose(Every) : CopyCtx(k, j) \/ ShareReg(k, j)
              \/ \E k \in Choose(Pool), j \in Choose(Every), how \in Choose({"copyreg", "clonereg", "clone"}) : Own(k, j, how)
              \/ \E k \in Choose(Every), j \in Choose(Every), how \in Choose({"assign", "assignclone"}) : Assign(k, j, how)
              \/ \E k \in Choose(Every), l \in Choose(NewLabel), c \in Choose(Classes), hm \in Choose(Herms \cup {""}) : Add(k, l, c, hm)
              \/ \E k \in Choose(Every), l \in Choose(NewLabel), c \in Choose(Classes) : Add(k, l, c, "")
              \/ \E k \in Choose(Every) : \E l \in Choose(Known(k)), hm \in Choose(Herms) : SetHerm(k, l, hm)
              \/ \E k \in Choose(Every) : \E l \in Choose(Known(k)) : Drop(k, l)
              \/ \E k \in Choose(Every) : RandomElement(1..4) = 1 /\ Purge(k)
              \/ \E k \in Choose(Pool), how \in Choose({"set", "setoptions"}) : SetDefault(k, how)
              \/ Reset
              \/ \E k \in Choose(Every), how \in Choose({"enter", "enteroptions"}) : Enter(k, how)
              \/ \E n \in 1..3 : Leave(n)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The guarantees, checked exhaustively over a reduced set of operations.    *)
SmallNext == /\ Len(h) < Steps
  /\ \/ \E k \in {1, 2} : New(k, "empty")
     \/ \E k \in {1, 2}, j \in {0, 1} : CopyCtx(k, j) \/ Own(k, j, "copyreg") \/ Own(k, j, "clone")
     \/ Assign(1, 2, "assign")
     \/ \E k \in {0, 1, 2}, l \in {"t", "s"} : Add(k, l, "ex", "") \/ Drop(k, l)
     \/ \E k \in {1, 2} : SetHerm(k, "t", "H") \/ Purge(k)
     \/ SetDefault(1, "set") \/ Reset \/ Enter(1, "enter") \/ Enter(0, "enter") \/ Leave(1)
SmallSpec == Init /\ [][SmallNext]_vars
SmallView == <<pool, def, scopes, regs, ops>>
NoReserved == \A n \in UsedRegs \ {0} : DOMAIN ops[regs[n]] \cap Reserved = {}
(* what was seen of a context that shares no operators with the one changed
   stays as it was *)
Independent == [][Len(h') > Len(h) /\ h'[Len(h')].op \in {"add", "remove", "herm", "purge"} =>
   LET k == h'[Len(h')].k IN \A j \in Every : HasReg(j) /\ regs[Ctx(j, pool, def).reg] # regs[Ctx(k, pool, def).reg]
      => See(Ctx(j, pool', def'), regs', ops') = See(Ctx(j, pool, def), regs, ops)]_vars
Shared == [][Len(h') > Len(h) /\ h'[Len(h')].op = "purge" =>
   LET k == h'[Len(h')].k IN \A j \in Every : HasReg(j) /\ Ctx(j, pool, def).reg = Ctx(k, pool, def).reg => M(j)' = <<>>]_vars
Rejected == [][Len(h') > Len(h) /\ ~h'[Len(h')].see.ok => View(pool', def', regs', ops') = View(pool, def, regs, ops)]_vars
Restores == [][Len(scopes') < Len(scopes) => def' = scopes[Len(scopes') + 1]]_vars
=============================================================================
