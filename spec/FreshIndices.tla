----------------------------- MODULE FreshIndices -----------------------------
(* Where new indices come from (core/index.hpp): the counter of temporary    *)
(* indices, shared by all threads, index factories with their validators,    *)
(* and the user, who may name an index only below the first ordinal that the *)
(* context keeps for temporary ones.                                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Histories

Spaces == {1, 2}
Facs == {1, 2}
VARIABLES min,   \* the context's first ordinal of temporary indices
          last,  \* the counter
          fac,   \* factories: where each starts, what its validator rejects, its counters
          temps, \* temporary indices given since the counter was last reset
          named, \* indices the user has named in the present context
          made,  \* by factory: what it made
          fresh, \* temporary indices given in the present context
          h
vars == <<min, last, fac, temps, named, made, fresh, h>>
NewFac(m, rej) == [min |-> m, rej |-> rej, at |-> [s \in Spaces |-> m - 1]]
Init == /\ min = 4 /\ last = 3 /\ fac = [k \in Facs |-> NewFac(4, {})] /\ temps = <<>> /\ named = {} /\ made = [k \in Facs |-> <<>>]
        /\ fresh = {} /\ h = <<>>
Log(op, r) == h' = Append(h, op @@ [see |-> r])

SetMin(m) == /\ min' = m /\ named' = {} /\ fresh' = {} /\ UNCHANGED <<last, fac, temps, made>> /\ Log([op |-> "min", m |-> m], [ok |-> TRUE])
Reset == /\ last' = min - 1 /\ temps' = <<>> /\ fresh' = {} /\ UNCHANGED <<min, fac, named, made>> /\ Log([op |-> "reset"], [ok |-> TRUE])
(* drawn by several threads at once: the next ordinals, each once *)
Draw(threads, per, how) ==
  LET first == Max({last + 1, min})  n == threads * per  L == [k \in 1..n |-> first + k - 1] IN
  /\ last' = first + n - 1 /\ temps' = temps \o L /\ fresh' = fresh \cup {L[k] : k \in 1..n}
  /\ UNCHANGED <<min, fac, named, made>> /\ Log([op |-> "draw", threads |-> threads, per |-> per, how |-> how], [got |-> L])
User(s, o, how) ==
  /\ named' = IF o < min THEN named \cup {o} ELSE named
  /\ UNCHANGED <<min, last, fac, temps, made, fresh>> /\ Log([op |-> "user", s |-> s, o |-> o, how |-> how], [ok |-> o < min])
Factory(k, m, rej, how) ==
  /\ fac' = [fac EXCEPT ![k] = NewFac(IF how = "explicit" THEN m ELSE min, IF how = "plain" THEN {} ELSE rej)]
  /\ made' = [made EXCEPT ![k] = <<>>]
  /\ UNCHANGED <<min, last, temps, named, fresh>>
  /\ Log([op |-> "factory", k |-> k, m |-> m, rej |-> [s \in Spaces |-> {o \in {x[2] : x \in rej} : <<s, o>> \in rej}], how |-> how], [ok |-> TRUE])
(* the next n ordinals of space s that f does not reject, from the given one on *)
Next_(f, s, from, n) == SubSeq(SelectSeq([k \in 1..(n + Cardinality(f.rej)) |-> from + k - 1], LAMBDA o : <<s, o>> \notin f.rej), 1, n)
(* asked for by several threads at once, each of which asks for per[s] indices of space s *)
Make(k, threads, per, how) ==
  LET f == fac[k]  L == [s \in Spaces |-> Next_(f, s, f.at[s] + 1, threads * per[s])] IN
  /\ fac' = [fac EXCEPT ![k].at = [s \in Spaces |-> IF L[s] = <<>> THEN f.at[s] ELSE L[s][Len(L[s])]]]
  /\ made' = [made EXCEPT ![k] = @ \o [n \in DOMAIN L[1] |-> <<1, L[1][n]>>] \o [n \in DOMAIN L[2] |-> <<2, L[2][n]>>]]
  /\ UNCHANGED <<min, last, temps, named, fresh>>
  /\ Log([op |-> "make", k |-> k, threads |-> threads, per |-> per, how |-> how], [one |-> L[1], two |-> L[2]])

Threads == {1, 1, 2, 4, 8}
Rej(m) == {<<s, o>> \in Spaces \X (m..(m + 9)) : RandomElement(1..3) = 1}
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<min, last, fac, temps, named, made, fresh>>
        \/ /\ Len(h) < Steps
           /\ \E k \in Choose(Facs), t \in Choose({1, 2, 4, 8}), m \in Choose({1, 2, 4, 7, 100}) :
              \/ SetMin(m)
              \/ \E q \in Choose(1..3) : q = 1 /\ Reset
              \/ \E n \in Choose(1..5), how \in Choose({"space", "protos", "next"}) : Draw(t, n, how)
              \/ \E n \in Choose(1..30), how \in Choose({"space", "protos", "next"}) : Draw(t, n, how)
              \/ \E s \in Choose(Spaces), d \in Choose({-2, -1, 0, 1}), how \in Choose({"label", "ordinal"}) : min + d > 0 /\ User(s, min + d, how)
              \/ \E s \in Choose(Spaces), d \in Choose(0..3), how \in Choose({"label", "ordinal"}) : last - d > 0 /\ User(s, last - d, how)
              \/ \E R \in {TLCEval(Rej(m))}, how \in Choose({"plain", "default", "explicit"}) : Factory(k, m, R, how)
              \/ \E a \in Choose(0..6), b \in Choose(0..6), how \in Choose({"space", "index"}) : Make(k, t, <<a, b>>, how)
              \/ \E a \in Choose(0..20), b \in Choose(0..20), how \in Choose({"space", "index"}) : Make(k, t, <<a, b>>, how)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
SmallNext == /\ Len(h) < Steps
             /\ \/ \E m \in {2, 4, 6} : SetMin(m)
                \/ Reset
                \/ \E t \in 1..2 : Draw(t, 1, "space")
                \/ \E o \in {3, 5} : User(1, o, "label")
                \/ \E m \in {2, 4} : Factory(1, m, {<<1, 4>>, <<2, 2>>}, "explicit")
                \/ \E p \in {<<1, 0>>, <<1, 2>>} : Make(1, 1, p, "space")
SmallSpec == Init /\ [][SmallNext]_vars
(* temporary indices differ from one another, from those the user may name, and from those named *)
NoTwo(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]
Unlike == NoTwo(temps) /\ fresh \cap named = {} /\ \A o \in fresh : o >= min
(* a factory never repeats itself nor gives what its validator rejects *)
Valid == \A k \in Facs : NoTwo(made[k]) /\ \A n \in DOMAIN made[k] : made[k][n] \notin fac[k].rej
=============================================================================
