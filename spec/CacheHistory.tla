---------------------------- MODULE CacheHistory ----------------------------
(* Histories of a cache: store, access, reset, notes of the working set, in *)
(* any order and also on keys that were never registered.                   *)
EXTENDS Integers, Cache, Histories

MaxLife == EnvNat("MAXLIFE", 3)
NKeys == EnvNat("NKEYS", 3)
Keys == 1..NKeys                       \* the last one is not registered

VARIABLES c, next, uses, mark, h
vars == <<c, next, uses, mark, h>>
\* next: name of the next result; uses[k]: uses of the result that k holds; mark: largest working set noted
Size(v) == 8 * (1 + (v % 5))
Bytes == FoldSet(LAMBDA k, acc : acc + IF c[k].data = 0 THEN 0 ELSE Size(c[k].data), 0, DOMAIN c)
See(cc, res, mk) ==
    [res |-> res,
     life |-> [k \in Keys |-> IF k \in DOMAIN cc THEN cc[k].life ELSE -1],
     max |-> [k \in Keys |-> IF k \in DOMAIN cc THEN cc[k].max ELSE -1],
     per |-> [k \in Keys |-> k \in DOMAIN cc /\ cc[k].per],
     known |-> [k \in Keys |-> k \in DOMAIN cc],
     alive |-> [k \in Keys |-> k \in Alive(cc)],
     size |-> [k \in Keys |-> IF k \in Alive(cc) THEN Size(cc[k].data) ELSE 0],
     total |-> FoldSet(LAMBDA k, acc : acc + Size(cc[k].data), 0, Alive(cc)),
     count |-> Cardinality(Alive(cc)),
     held |-> SetToSeq({cc[k].data : k \in Alive(cc)}),
     mark |-> mk]
Log(op, k, v, cc, res, mk) == Append(h, [op |-> op, k |-> k, v |-> v, size |-> Size(v), see |-> See(cc, res, mk)])

Init == /\ c \in [1..(NKeys - 1) -> {Entry(m, p) : m \in 0..MaxLife, p \in BOOLEAN}]
        /\ next = 1 /\ mark = 0
        /\ uses = [k \in Keys |-> 0]
        /\ h = <<[op |-> "new", e |-> [k \in 1..(NKeys - 1) |-> [max |-> c[k].max, per |-> c[k].per]], see |-> See(c, 0, 0)]>>
DoStore(k) ==
    /\ c' = Store(c, k, next)
    /\ next' = next + 1
    /\ uses' = [uses EXCEPT ![k] = IF k \in DOMAIN c /\ ~c[k].per THEN 1 ELSE 0]
    /\ h' = Log("store", k, next, c', next, mark)
    /\ UNCHANGED mark
DoAccess(k) ==
    /\ c' = Access(c, k)
    /\ uses' = [uses EXCEPT ![k] = @ + IF Found(c, k) # 0 /\ ~c[k].per THEN 1 ELSE 0]
    /\ h' = Log("access", k, 0, c', Found(c, k), mark)
    /\ UNCHANGED <<next, mark>>
DoReset ==
    /\ c' = Reset(c)
    /\ uses' = [k \in Keys |-> IF k \in DOMAIN c' /\ c'[k].data # 0 THEN uses[k] ELSE 0]
    /\ mark' = 0
    /\ h' = Log("reset", 0, 0, c', 0, mark')
    /\ UNCHANGED next
DoNote(v) ==
    /\ mark' = IF v > mark THEN v ELSE mark
    /\ h' = Log("note", 0, v, c, mark', mark')
    /\ UNCHANGED <<c, next, uses>>
Done == Finish(h)
Live == Len(h) < Steps
Next == \/ Live /\ \E k \in Choose(Keys) : DoStore(k)
        \/ Live /\ \E k \in Choose(Keys) : DoAccess(k)
        \/ Live /\ \E k \in Choose(Keys) : DoAccess(k)
        \/ Live /\ RandomElement(1..6) = 1 /\ DoReset
        \/ Live /\ RandomElement(1..4) = 1 /\ \E v \in Choose(1..50) : DoNote(v)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* exhaustive exploration: no history, values by kind only *)
McNext == \/ \E k \in Keys : next < 5 /\ DoStore(k)
          \/ \E k \in Keys : DoAccess(k)
          \/ DoReset
View == <<c, uses>>
McSpec == Init /\ [][McNext]_vars

TypeOK == \A k \in DOMAIN c : c[k].life \in 0..c[k].max
\* a result that does not persist is held exactly while uses are expected
HeldWhileNeeded == \A k \in DOMAIN c : (~c[k].per /\ c[k].data # 0) => (c[k].life > 0 /\ uses[k] >= 1 /\ uses[k] + c[k].life <= c[k].max)
\* persistent results are never counted down
PersistentUntouched == \A k \in DOMAIN c : c[k].per => c[k].life = c[k].max
\* nothing but storing creates a result, nothing but a reset restores uses
OnlyForward == [][\A k \in DOMAIN c : c'[k].life <= c[k].life \/ c' = Reset(c)]_vars
PersistentStays == [][\A k \in DOMAIN c : (c[k].per /\ c[k].data # 0) => c'[k].data # 0]_vars
=============================================================================
