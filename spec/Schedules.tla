----------------------------- MODULE Schedules -----------------------------
(* A computation over the terms of a sum is specified as: every term is      *)
(* worked on once, by one of any number of workers, and its contribution is  *)
(* added to the result in one piece; so the result does not depend on the    *)
(* number of workers or on their schedule. The machine below is checked for  *)
(* that (mc); the judge requires it of results recorded from the real code   *)
(* with several numbers of threads.                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

(* --- workers over terms ------------------------------------------------- *)
CONSTANT Terms, Workers
VARIABLES next, at, result, case, verdict
(* like terms (equal modulo 2) are merged *)
Contribution(t) == t % 2
None == [k \in {0, 1} |-> 0]
Init == next = 1 /\ at = [w \in 1..Workers |-> 0] /\ result = None /\ case = 0 /\ verdict = ""
Take(w) == /\ at[w] = 0 /\ next <= Terms
           /\ at' = [at EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED result
Add(w) == /\ at[w] # 0
          /\ result' = [result EXCEPT ![Contribution(at[w])] = @ + at[w]] /\ at' = [at EXCEPT ![w] = 0] /\ UNCHANGED next
Next == /\ \E w \in 1..Workers : Take(w) \/ Add(w)
        /\ UNCHANGED <<case, verdict>>
Spec == Init /\ [][Next]_<<next, at, result, case, verdict>>
(* what is merged and what is being worked on make up what has been taken *)
SumTo(k, n) == FoldSet(LAMBDA t, acc : acc + t, 0, {t \in 1..n : Contribution(t) = k})
Pending(k) == FoldSet(LAMBDA w, acc : acc + (IF at[w] # 0 /\ Contribution(at[w]) = k THEN at[w] ELSE 0), 0, 1..Workers)
NothingLost == \A k \in {0, 1} : result[k] + Pending(k) = SumTo(k, next - 1)
SameForAll == (next > Terms /\ \A w \in 1..Workers : at[w] = 0) => \A k \in {0, 1} : result[k] = SumTo(k, Terms)

(* --- judge --------------------------------------------------------------- *)
Trace == ndJsonDeserialize(IOEnv.CASES)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
Judge(r) == LET bad == {k \in DOMAIN r.runs : ~SameBag(r.runs[1].terms, r.runs[k].terms)} IN
            IF bad = {} THEN [v |-> "ok", at |-> 0]
            ELSE [v |-> "the result with " \o ToString(r.runs[Min(bad)].threads) \o " threads is another", at |-> Min(bad)]
JInit == case \in 1..Len(Trace) /\ verdict = "unread" /\ next = 0 /\ at = <<>> /\ result = <<>>
JNext == /\ verdict = "unread"
         /\ LET j == Judge(Trace[case]) IN
              /\ PrintT("JUDGED " \o ToJson([case |-> case, v |-> j.v, at |-> j.at]))
              /\ verdict' = j.v
         /\ UNCHANGED <<case, next, at, result>>
JSpec == JInit /\ [][JNext]_<<case, verdict, next, at, result>>
AllJudged == TLCGet("stats").distinct >= 2 * Len(Trace)
=============================================================================
