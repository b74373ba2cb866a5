------------------------------ MODULE Context ------------------------------
(* Default contexts (core/context.hpp): the map from particle statistics to  *)
(* Context in force, scopes that change it and restore it, copies that share *)
(* a registry and clones that do not.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Histories

Stats  == {"A", "F", "B"}            \* arbitrary, Fermi-Dirac, Bose-Einstein
Pool   == 1..3                       \* the user's own Context objects
Fields == [vac |-> 0..2, metric |-> 0..1, strict |-> 0..1, basis |-> 0..1,
           ord |-> 0..2, canon |-> 0..2, bkt |-> 0..1, slot |-> 0..1]
Letters == {"i", "a", "u"}
None == [f |-> [x \in DOMAIN Fields |-> 0], reg |-> 0]
DefaultFields == [vac |-> 0, metric |-> 0, strict |-> 0, basis |-> 0, ord |-> 0, canon |-> 0, bkt |-> 0, slot |-> 0]
DefaultCtx == [f |-> DefaultFields, reg |-> 0]

VARIABLES pool,     \* the user's contexts
          def,      \* contexts in force: a function on a subset of Stats
          scopes,   \* what each live scope will restore, innermost last
          regs,     \* registry objects: which set of spaces, which vacuum space
          sets,     \* sets of registered spaces, possibly shared
          h
vars == <<pool, def, scopes, regs, sets, h>>
MaxRegs == 6

Eff(d, s) == IF s \in DOMAIN d THEN d[s] ELSE IF "A" \in DOMAIN d THEN d["A"] ELSE DefaultCtx

(* what can be seen of one context *)
See(c, rr, ss) ==
  [f |-> c.f,
   reg |-> c.reg # 0,
   sp |-> IF c.reg = 0 THEN {} ELSE ss[rr[c.reg].set],
   vs |-> IF c.reg = 0 THEN "" ELSE rr[c.reg].vs]
(* 1: must compare equal, 0: must not, 2: not determined here *)
Same(a, b) == IF a.f # b.f \/ (a.reg = 0) # (b.reg = 0) THEN 0
              ELSE IF a.reg = b.reg THEN 1 ELSE 2
View(p, d, rr, ss) ==
  [def |-> [s \in Stats |-> See(Eff(d, s), rr, ss)],
   pool |-> [k \in Pool |-> See(p[k], rr, ss)],
   eq |-> [k \in Pool |-> [j \in Pool |-> Same(p[k], p[j])]]]

Init == /\ pool = [k \in Pool |-> DefaultCtx]
        /\ def = <<>>
        /\ scopes = <<>> /\ regs = <<>> /\ sets = <<>> /\ h = <<>>

Log(op) == h' = Append(h, op @@ [see |-> View(pool', def', regs', sets')])

New(k) == \E withReg \in BOOLEAN :
  /\ IF withReg THEN /\ Len(regs) < MaxRegs
                     /\ sets' = Append(sets, {})
                     /\ regs' = Append(regs, [set |-> Len(sets) + 1, vs |-> ""])
                     /\ pool' = [pool EXCEPT ![k] = [f |-> DefaultFields, reg |-> Len(regs) + 1]]
     ELSE UNCHANGED <<sets, regs>> /\ pool' = [pool EXCEPT ![k] = DefaultCtx]
  /\ UNCHANGED <<def, scopes>>
  /\ Log([op |-> "new", k |-> k, reg |-> withReg])

SetField(k) == \E f \in Choose(DOMAIN Fields) : \E x \in Fields[f] :
  /\ pool[k].f[f] # x
  /\ pool' = [pool EXCEPT ![k].f[f] = x]
  /\ UNCHANGED <<def, scopes, regs, sets>>
  /\ Log([op |-> "field", k |-> k, f |-> f, x |-> x])

Copy(k, j) == /\ k # j /\ pool' = [pool EXCEPT ![k] = pool[j]]
              /\ UNCHANGED <<def, scopes, regs, sets>>
              /\ Log([op |-> "copy", k |-> k, j |-> j])

FromDefault(k, s) == /\ pool' = [pool EXCEPT ![k] = Eff(def, s)]
              /\ UNCHANGED <<def, scopes, regs, sets>>
              /\ Log([op |-> "get", k |-> k, s |-> s])

Clone(k, j) == /\ k # j /\ pool[j].reg # 0 /\ Len(regs) < MaxRegs
  /\ sets' = Append(sets, sets[regs[pool[j].reg].set])
  /\ regs' = Append(regs, [set |-> Len(sets) + 1, vs |-> regs[pool[j].reg].vs])
  /\ pool' = [pool EXCEPT ![k] = [pool[j] EXCEPT !.reg = Len(regs) + 1]]
  /\ UNCHANGED <<def, scopes>>
  /\ Log([op |-> "clone", k |-> k, j |-> j])

ShareReg(k, j) == /\ k # j /\ pool[j].reg # 0 /\ pool[k].reg # pool[j].reg
  /\ pool' = [pool EXCEPT ![k].reg = pool[j].reg]
  /\ UNCHANGED <<def, scopes, regs, sets>>
  /\ Log([op |-> "sharereg", k |-> k, j |-> j])

(* a copied registry shares the spaces, but not the choice of vacuum space *)
CopyReg(k, j) == /\ pool[j].reg # 0 /\ Len(regs) < MaxRegs
  /\ regs' = Append(regs, regs[pool[j].reg])
  /\ pool' = [pool EXCEPT ![k].reg = Len(regs) + 1]
  /\ UNCHANGED <<def, scopes, sets>>
  /\ Log([op |-> "copyreg", k |-> k, j |-> j])

AddSpace(k, x) == /\ pool[k].reg # 0
  /\ x \notin sets[regs[pool[k].reg].set]
  /\ sets' = [sets EXCEPT ![regs[pool[k].reg].set] = @ \cup {x}]
  /\ UNCHANGED <<pool, def, scopes, regs>>
  /\ Log([op |-> "add", k |-> k, x |-> x])

AddToDefault(s, x) == LET c == Eff(def, s) IN /\ c.reg # 0
  /\ x \notin sets[regs[c.reg].set]
  /\ sets' = [sets EXCEPT ![regs[c.reg].set] = @ \cup {x}]
  /\ UNCHANGED <<pool, def, scopes, regs>>
  /\ Log([op |-> "adddef", s |-> s, x |-> x])

SetVacSpace(k, x) == /\ pool[k].reg # 0 /\ x \in sets[regs[pool[k].reg].set]
  /\ regs' = [regs EXCEPT ![pool[k].reg].vs = x]
  /\ UNCHANGED <<pool, def, scopes, sets>>
  /\ Log([op |-> "vacspace", k |-> k, x |-> x])

SetDefault(s, k) == /\ def' = [t \in DOMAIN def \cup {s} |-> IF t = s THEN pool[k] ELSE def[t]]
  /\ UNCHANGED <<pool, scopes, regs, sets>>
  /\ Log([op |-> "set", s |-> s, k |-> k])

Maps == UNION {[D -> Pool] : D \in (SUBSET Stats \ {{}})}
SetMap(m) == /\ def' = [t \in DOMAIN def \cup DOMAIN m |-> IF t \in DOMAIN m THEN pool[m[t]] ELSE def[t]]
  /\ UNCHANGED <<pool, scopes, regs, sets>>
  /\ Log([op |-> "setmap", m |-> m])

Reset == /\ def' = <<>> /\ UNCHANGED <<pool, scopes, regs, sets>> /\ Log([op |-> "reset"])

Enter(m) == /\ Len(scopes) < 4
  /\ scopes' = Append(scopes, def)
  /\ def' = [t \in DOMAIN m |-> pool[m[t]]]
  /\ UNCHANGED <<pool, regs, sets>>
  /\ Log([op |-> "enter", m |-> m])
EnterOne(k) == /\ Len(scopes) < 4
  /\ scopes' = Append(scopes, def)
  /\ def' = [t \in {"A"} |-> pool[k]]
  /\ UNCHANGED <<pool, regs, sets>>
  /\ Log([op |-> "enter1", k |-> k])
(* entering with the context already in force *)
EnterSame == /\ Len(scopes) < 4 /\ DOMAIN def = {"A"}
  /\ scopes' = Append(scopes, def)
  /\ UNCHANGED <<pool, def, regs, sets>>
  /\ Log([op |-> "entersame"])
(* n scopes end at once when an exception passes through them *)
Leave(n) == /\ n <= Len(scopes)
  /\ def' = scopes[Len(scopes) - n + 1]
  /\ scopes' = SubSeq(scopes, 1, Len(scopes) - n)
  /\ UNCHANGED <<pool, regs, sets>>
  /\ Log([op |-> "leave", n |-> n])

Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<pool, def, scopes, regs, sets>>
        \/ /\ Len(h) < Steps
           /\ \/ \E k \in Choose(Pool) : New(k)
              \/ \E k \in Choose(Pool) : SetField(k)
              \/ \E k \in Choose(Pool), j \in Choose(Pool) : Copy(k, j)
              \/ \E k \in Choose(Pool), s \in Choose(Stats) : FromDefault(k, s)
              \/ \E k \in Choose(Pool), j \in Choose(Pool) : Clone(k, j)
              \/ \E k \in Choose(Pool), j \in Choose(Pool) : ShareReg(k, j) \/ CopyReg(k, j)
              \/ \E k \in Choose(Pool), x \in Choose(Letters) : AddSpace(k, x) \/ SetVacSpace(k, x)
              \/ \E s \in Choose(Stats), x \in Choose(Letters) : AddToDefault(s, x)
              \/ \E s \in Stats, k \in Choose(Pool) : SetDefault(s, k)
              \/ \E m \in Choose(Maps) : SetMap(m) \/ Enter(m)
              \/ \E m \in Choose(Maps) : Enter(m)
              \/ \E k \in Pool : EnterOne(k)
              \/ EnterSame
              \/ Reset
              \/ \E n \in 1..3 : Leave(n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The guarantees, checked exhaustively over a reduced set of operations.     *)
SmallNext == /\ Len(h) < Steps
        /\ \/ \E k \in Pool : \E x \in 1..2 : pool[k].f.ord # x /\ pool' = [pool EXCEPT ![k].f.ord = x] /\ UNCHANGED <<def, scopes, regs, sets>>
           \/ \E k \in Pool, j \in Pool : (k # j /\ pool' = [pool EXCEPT ![k] = pool[j]] /\ UNCHANGED <<def, scopes, regs, sets>>)
           \/ \E s \in Stats, k \in Pool : def' = [t \in DOMAIN def \cup {s} |-> IF t = s THEN pool[k] ELSE def[t]] /\ UNCHANGED <<pool, scopes, regs, sets>>
           \/ \E m \in [{"A"} -> Pool] \cup [{"F"} -> Pool] \cup [{"A", "F"} -> Pool] :
                 Len(scopes) < 3 /\ scopes' = Append(scopes, def) /\ def' = [t \in DOMAIN m |-> pool[m[t]]] /\ UNCHANGED <<pool, regs, sets>>
           \/ def' = <<>> /\ UNCHANGED <<pool, scopes, regs, sets>>
           \/ \E n \in 1..Len(scopes) : def' = scopes[Len(scopes) - n + 1] /\ scopes' = SubSeq(scopes, 1, Len(scopes) - n) /\ UNCHANGED <<pool, regs, sets>>
        /\ h' = Append(h, 0)
SmallSpec == Init /\ [][SmallNext]_vars
SmallView == <<pool, def, scopes, regs, sets>>
(* a statistics without a context of its own has the any-statistics one *)
FallBack == \A s \in Stats : s \notin DOMAIN def => Eff(def, s) = Eff(def, "A")
(* leaving the innermost scope puts back the contexts of its entry, whatever
   happened inside; a scope never alters what an outer scope will restore *)
ScopesKeep == [][Len(scopes') >= Len(scopes)
                   => \A n \in 1..Len(scopes) : scopes'[n] = scopes[n]]_vars
Restores == [][Len(scopes') < Len(scopes) => def' = scopes[Len(scopes') + 1]]_vars
=============================================================================
