------------------------------ MODULE Parallel ------------------------------
(* What threads share: loops and reductions run by several threads           *)
(* (core/runtime.hpp), values computed once for all (core/utility/           *)
(* memoize.hpp), objects of which there is one (core/utility/singleton.hpp)  *)
(* and the default contexts (core/context.cpp). Whoever is inside - a task,  *)
(* a computation, a constructor - stays there until the specification lets   *)
(* it end, so that every interleaving of entries and exits can be asked for. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Histories

VARIABLES mode, \* "each", "memo", "single", "contexts"
          each, \* the loop: tasks, threads, those running, the next, those ended, in order
          memo, \* by key: computing or not, how many wait, how many got a value, failed; the value
          one,  \* by class: what is being made (-1: nothing), who waits, what there is (-1: nothing), ...
          v,    \* number of values handed out
          h
vars == <<mode, each, memo, one, v, h>>
Keys == 1..3
Classes == {1, 2}   \* 1 can be made without arguments, 2 cannot
NoLoop == [what |-> "none", n |-> 0, threads |-> 0, running |-> {}, next |-> 1, ended |-> <<>>, lost |-> {}]
NoMemo == [busy |-> 0, waiting |-> 0, got |-> 0, failed |-> 0, value |-> 0]
(* object values: default-made ones have 0, others what they are made with *)
NoOne == [making |-> -1, waiting |-> <<>>, there |-> -1, made |-> 0, got |-> <<>>, failed |-> 0, null |-> 0]
Init == /\ mode \in {"each", "memo", "single", "contexts"}
        /\ each = NoLoop /\ memo = [k \in Keys |-> NoMemo] /\ one = [c \in Classes |-> NoOne] /\ v = 0 /\ h = <<>>
Log(op, r) == h' = Append(h, op @@ [see |-> r])
----------------------------------------------------------------------------
(* loops *)
SeeLoop(e) == [running |-> e.running, over |-> e.running = {}, ended |-> e.ended, failed |-> e.running = {} /\ e.lost # {}]
Min2(a, b) == IF a < b THEN a ELSE b
Loop(what, n, threads) ==
  /\ mode = "each" /\ each.running = {}
  /\ LET m == IF what = "do" THEN threads ELSE n
         first == Min2(m, threads)
         e == [what |-> what, n |-> m, threads |-> threads, running |-> 1..first, next |-> first + 1, ended |-> <<>>, lost |-> {}] IN
     each' = e /\ Log([op |-> "loop", what |-> what, n |-> n, threads |-> threads], SeeLoop(e))
  /\ UNCHANGED <<mode, memo, one, v>>
End(k) ==
  /\ mode = "each" /\ k \in each.running
  /\ LET more == each.next <= each.n
         e == [each EXCEPT !.running = (@ \ {k}) \cup (IF more THEN {each.next} ELSE {}), !.next = IF more THEN @ + 1 ELSE @, !.ended = Append(@, k)] IN
     each' = e /\ Log([op |-> "end", k |-> k], SeeLoop(e))
  /\ UNCHANGED <<mode, memo, one, v>>
(* a task that fails takes its worker with it; the others go on, and the     *)
(* failure reaches whoever asked for the loop once all are done              *)
FailTask(k) ==
  /\ mode = "each" /\ k \in each.running
  /\ LET e == [each EXCEPT !.running = @ \ {k}, !.lost = @ \cup {k}] IN
     each' = e /\ Log([op |-> "fail", k |-> k], SeeLoop(e))
  /\ UNCHANGED <<mode, memo, one, v>>
----------------------------------------------------------------------------
(* values computed once *)
SeeMemo(m) == [k \in Keys |-> [busy |-> m[k].busy, waiting |-> m[k].waiting, failed |-> m[k].failed, got |-> [i \in 1..m[k].got |-> m[k].value]]]
Call(k) ==
  /\ mode = "memo"
  /\ LET c == memo[k]
         m == [memo EXCEPT ![k] = IF c.value # 0 THEN [c EXCEPT !.got = @ + 1] ELSE IF c.busy = 1 THEN [c EXCEPT !.waiting = @ + 1] ELSE [c EXCEPT !.busy = 1]] IN
     memo' = m /\ Log([op |-> "call", k |-> k], SeeMemo(m))
  /\ UNCHANGED <<mode, each, one, v>>
Computed(k) ==
  /\ mode = "memo" /\ memo[k].busy = 1
  /\ LET m == [memo EXCEPT ![k] = [@ EXCEPT !.value = v + 1, !.busy = 0, !.got = @ + 1 + memo[k].waiting, !.waiting = 0]] IN
     memo' = m /\ v' = v + 1 /\ Log([op |-> "computed", k |-> k, v |-> v + 1], SeeMemo(m))
  /\ UNCHANGED <<mode, each, one>>
(* whoever computes fails: it learns so, and one of those who wait computes in its stead *)
Failed(k) ==
  /\ mode = "memo" /\ memo[k].busy = 1
  /\ LET w == memo[k].waiting
         m == [memo EXCEPT ![k] = [@ EXCEPT !.failed = @ + 1, !.busy = IF w > 0 THEN 1 ELSE 0, !.waiting = IF w > 0 THEN w - 1 ELSE 0]] IN
     memo' = m /\ Log([op |-> "failed", k |-> k], SeeMemo(m))
  /\ UNCHANGED <<mode, each, one, v>>
----------------------------------------------------------------------------
(* objects of which there is one *)
SeeOne(o) == [c \in Classes |-> [making |-> IF o[c].making >= 0 THEN 1 ELSE 0, waiting |-> Len(o[c].waiting), made |-> o[c].made, got |-> o[c].got, failed |-> o[c].failed, null |-> o[c].null]]
(* a caller who wants something and finds nobody inside *)
Enter(o, c, how, x) ==
  IF how = "set" THEN IF o.there >= 0 THEN [o EXCEPT !.failed = @ + 1] ELSE [o EXCEPT !.making = x]
  ELSE IF o.there >= 0 THEN [o EXCEPT !.got = Append(@, o.there)]
  ELSE IF c = 1 THEN [o EXCEPT !.making = 0]
  ELSE IF how = "instance" THEN [o EXCEPT !.failed = @ + 1] ELSE [o EXCEPT !.null = @ + 1]
Ask(c, how) ==
  /\ mode = "single"
  /\ LET o == one[c]
         x == IF how = "set" THEN v + 1 ELSE 0
         waits == o.making >= 0 /\ (how = "set" \/ c = 1)
         q == [one EXCEPT ![c] = IF waits THEN [o EXCEPT !.waiting = Append(@, <<how, x>>)] ELSE Enter(o, c, how, x)] IN
     one' = q /\ v' = v + 1 /\ Log([op |-> "ask", c |-> c, how |-> how, v |-> x], SeeOne(q))
  /\ UNCHANGED <<mode, each, memo>>
RECURSIVE Serve(_, _)
Serve(o, c) == IF o.waiting = <<>> THEN o
               ELSE LET w == Head(o.waiting) IN Serve(Enter([o EXCEPT !.waiting = Tail(@)], c, w[1], w[2]), c)
Made(c) ==
  /\ mode = "single" /\ one[c].making >= 0
  /\ LET o == one[c]
         mine == [o EXCEPT !.there = o.making, !.making = -1, !.made = @ + 1, !.got = Append(@, o.making)]
         q == [one EXCEPT ![c] = Serve(mine, c)] IN
     one' = q /\ Log([op |-> "made", c |-> c], SeeOne(q))
  /\ UNCHANGED <<mode, each, memo, v>>
(* in which order others are let in is not specified: at most one waits *)
NotMade(c) ==
  /\ mode = "single" /\ one[c].making >= 0 /\ Len(one[c].waiting) <= 1
  /\ LET q == [one EXCEPT ![c] = Serve([@ EXCEPT !.making = -1, !.failed = @ + 1], c)] IN
     one' = q /\ Log([op |-> "notmade", c |-> c], SeeOne(q))
  /\ UNCHANGED <<mode, each, memo, v>>
Forget(c) ==
  /\ mode = "single" /\ one[c].making < 0 /\ one[c].there >= 0
  /\ LET q == [one EXCEPT ![c] = [@ EXCEPT !.there = -1]] IN one' = q /\ Log([op |-> "forget", c |-> c], SeeOne(q))
  /\ UNCHANGED <<mode, each, memo, v>>
----------------------------------------------------------------------------
(* default contexts set at once by several threads, each for one kind of     *)
(* statistics (0: any): afterwards each kind has one of those set for it     *)
Sets(L, scope) ==
  /\ mode = "contexts"
  /\ Log([op |-> "sets", sets |-> L, scope |-> scope, allowed |-> [s \in 1..3 |-> {L[i][2] : i \in {j \in DOMAIN L : L[j][1] = s}}]], [ok |-> TRUE])
  /\ UNCHANGED <<mode, each, memo, one, v>>
----------------------------------------------------------------------------
Next == \/ Finish(h) /\ h' = Append(h, 0) /\ UNCHANGED <<mode, each, memo, one, v>>
        \/ /\ Len(h) < Steps
           /\ \/ \E w \in Choose({"for_each", "reduce", "do", "list"}), n \in Choose(0..9), t \in Choose(1..6) : Loop(w, n, t)
              \/ \E k \in Choose(each.running) : End(k)
              \/ \E k \in Choose(each.running), q \in Choose(1..5) : IF q = 1 THEN FailTask(k) ELSE End(k)
              \/ \E k \in Choose(Keys) : Call(k)
              \/ \E k \in Choose(Keys) : Call(k)
              \/ \E k \in Choose({q \in Keys : memo[q].busy = 1}) : Computed(k)
              \/ \E k \in Choose({q \in Keys : memo[q].busy = 1}) : Failed(k)
              \/ \E c \in Choose(Classes), how \in Choose({"instance", "ptr", "set"}) : Ask(c, how)
              \/ \E c \in Choose(Classes), how \in Choose({"instance", "ptr", "set"}) : Ask(c, how)
              \/ \E c \in Choose({q \in Classes : one[q].making >= 0}) : Made(c)
              \/ \E c \in Choose({q \in Classes : one[q].making >= 0 /\ Len(one[q].waiting) <= 1}) : NotMade(c)
              \/ \E c \in Choose({q \in Classes : one[q].making < 0 /\ one[q].there >= 0}) : Forget(c)
              \/ mode = "contexts" /\ \E n \in Choose(1..8), s \in Choose({"set", "scoped"}) : \E L \in {TLCEval([i \in 1..n |-> <<RandomElement(1..3), i>>])} : Sets(L, s)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
SmallNext == /\ Len(h) < Steps
             /\ \/ \E w \in {"for_each", "do"}, n \in {0, 1, 3}, t \in {1, 2} : Loop(w, n, t)
                \/ \E k \in each.running : End(k) \/ FailTask(k)
                \/ \E k \in 1..2 : Call(k) \/ Computed(k) \/ Failed(k)
                \/ \E c \in Classes : Made(c) \/ NotMade(c) \/ Forget(c) \/ \E how \in {"instance", "ptr", "set"} : Ask(c, how)
SmallSpec == Init /\ [][SmallNext]_vars
(* tasks begin in order, each once, never more at a time than there are threads *)
InTurn == /\ Cardinality(each.running) <= each.threads
          /\ LET e == {each.ended[i] : i \in DOMAIN each.ended} IN
             /\ Cardinality(e) = Len(each.ended) /\ e \cap each.running = {} /\ e \cup each.running \cup each.lost = 1..(each.next - 1)
          /\ (each.running = {} => each.next = each.n + 1 \/ each.what = "none" \/ Cardinality(each.lost) = each.threads)
          /\ (each.next <= each.n => Cardinality(each.running) = each.threads - Cardinality(each.lost))
(* nobody waits for nothing; a value, once there, is given to all *)
Once == \A k \in Keys : /\ (memo[k].waiting > 0 => memo[k].busy = 1) /\ (memo[k].got > 0 <=> memo[k].value # 0) /\ (memo[k].value # 0 => memo[k].busy = 0)
Single == \A c \in Classes : /\ (one[c].making >= 0 => one[c].there < 0) /\ (one[c].waiting # <<>> => one[c].making >= 0)
                             /\ (c = 1 => one[c].null = 0)
=============================================================================
