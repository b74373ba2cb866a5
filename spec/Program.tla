------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* A machine that runs exported programs.                                  *)
(*                                                                         *)
(* Its memory holds objects: blocks of tensors, and scalars.  (Of a block  *)
(* with a batched index there is one object per batch; they are declared   *)
(* together.)  An object is                                                *)
(* declared or not, live (in memory) or not, has a table of numbers while  *)
(* it is live, and may have a table on disk.  The inputs of a program are  *)
(* on disk at the start; everything else has to be created.  At the end    *)
(* every result must be on disk with the value of the expression that was  *)
(* exported, and nothing may be left in memory.                            *)
(*                                                                         *)
(* One behaviour per program, one step per statement.  A statement that    *)
(* the machine cannot execute ends the run with a complaint.               *)
(***************************************************************************)
EXTENDS TensorAlgebra, Json, IOUtils

VARIABLES case, pc, mem, at, verdict
vars == <<case, pc, mem, at, verdict>>

Programs == ndJsonDeserialize(IOEnv.CASES)

----------------------------------------------------------------------------
(* tables *)
Size(d) == FoldLeft(LAMBDA acc, x : acc * x.n, 1, d)
\* the values of the slots at position q of a table; the first slot counts fastest
RECURSIVE At(_, _, _)
At(d, m, q) == IF m > Len(d) THEN <<>> ELSE <<d[m].lo + 1 + (q % d[m].n)>> \o At(d, m + 1, q \div d[m].n)
Assign(r, sl, v) == [n \in 1..Len(r.idx) |-> IF \E m \in 1..Len(sl) : sl[m] = n THEN v[CHOOSE m \in 1..Len(sl) : sl[m] = n] ELSE 0]
\* the table of expression e with slots sl
Table(r, o, sl, e) == LET d == r.objs[o].d
                      IN [q \in 1..Size(d) |-> Val(r.idx, e, Assign(r, sl, At(d, 1, q - 1)), ToSet(sl), 0)]
Zeros(r, o) == [q \in 1..Size(r.objs[o].d) |-> 0]
Garbage(r, o) == [q \in 1..Size(r.objs[o].d) |-> Mix(o * 13 + 5, q)]

----------------------------------------------------------------------------
(* do the slots range over the object's dimensions? *)
Fits(r, o, sl) == /\ Len(sl) = Len(r.objs[o].d)
                  /\ \A m \in 1..Len(sl) : r.idx[sl[m]].lo = r.objs[o].d[m].lo /\ r.idx[sl[m]].n = r.objs[o].d[m].n
RECURSIVE Uses(_)        \* leaves that are objects
Uses(e) == CASE e.k = "tab" -> <<e>>
             [] e.k \in {"p", "+"} -> FoldLeft(LAMBDA acc, f : acc \o Uses(f), <<>>, e.a)
             [] e.k = "^" -> Uses(e.b)
             [] OTHER -> <<>>
RECURSIVE Fill(_, _, _)  \* with their tables
Fill(r, m, e) == CASE e.k = "tab" -> [k |-> "tab", sl |-> e.sl, d |-> r.objs[e.o].d, tab |-> m[e.o].tab]
                   [] e.k \in {"p", "+"} -> [e EXCEPT !.a = [n \in 1..Len(e.a) |-> Fill(r, m, e.a[n])]]
                   [] e.k = "^" -> [e EXCEPT !.b = Fill(r, m, e.b)]
                   [] OTHER -> e

InputsOf(r, o) == {n \in 1..Len(r.inputs) : r.inputs[n].o = o}
InputTable(r, n) == Table(r, r.inputs[n].o, r.inputs[n].sl, r.inputs[n].e)
Start(r) == [o \in 1..Len(r.objs) |->
               [live |-> FALSE, decl |-> ~r.decl, tab |-> <<>>,
                disk |-> IF InputsOf(r, o) = {} THEN <<>> ELSE InputTable(r, Min(InputsOf(r, o)))]]

----------------------------------------------------------------------------
(* why a statement cannot be executed; "" if it can *)
UnFit(r, m, e) == \E n \in 1..Len(Uses(e)) : ~Fits(r, Uses(e)[n].o, Uses(e)[n].sl)
NotLive(m, e) == \E n \in 1..Len(Uses(e)) : ~m[Uses(e)[n].o].live
Complaint(r, m, w, s) ==
    CASE s.op \in {"declare", "index"} -> IF ~w.decls THEN "a declaration outside of the declarations" ELSE ""
      [] s.op = "declare+" -> IF w.decls \/ w.expr THEN "declarations inside of others" ELSE ""
      [] s.op = "declare-" -> IF ~w.decls THEN "end of declarations without beginning" ELSE ""
      [] s.op = "section+" -> IF w.sect \/ w.expr \/ w.decls THEN "a section inside of another" ELSE ""
      [] s.op = "section-" -> IF ~w.sect \/ w.expr \/ w.decls THEN "end of a section without beginning" ELSE ""
      [] s.op = "expr+" -> IF w.expr \/ w.decls THEN "an expression inside of another" ELSE ""
      [] s.op = "expr-" -> IF ~w.expr THEN "end of an expression without beginning" ELSE ""
      [] ~w.expr -> "outside of expressions"
      [] ~m[s.o].decl -> "never declared"
      [] s.op = "create" -> IF m[s.o].live THEN "created while it exists" ELSE ""
      [] s.op = "load" -> IF m[s.o].live THEN "loaded while it exists"
                          ELSE IF m[s.o].disk = <<>> /\ ~s.z THEN "there is nothing to load" ELSE ""
      [] s.op \in {"zero", "unload", "destroy", "persist"} -> IF ~m[s.o].live THEN s.op \o " of what does not exist" ELSE ""
      [] s.op = "compute" ->
            IF ~m[s.o].live THEN "the result does not exist"
            ELSE IF NotLive(m, s.e) THEN "an operand does not exist"
            ELSE IF ~Fits(r, s.o, s.sl) \/ UnFit(r, m, s.e) THEN "slots and indices do not fit"
            ELSE IF r.decl /\ ~((ToSet(s.sl) \cup Occ(r.idx, s.e)) \subseteq w.idx) THEN "an index was not declared"
            ELSE ""

Effect(r, m, s) ==
    CASE s.op = "declare" -> [o \in DOMAIN m |-> IF r.objs[o].fam = r.objs[s.o].fam THEN [m[o] EXCEPT !.decl = TRUE] ELSE m[o]]
      [] s.op = "create" -> [m EXCEPT ![s.o].live = TRUE, ![s.o].tab = IF s.z THEN Zeros(r, s.o) ELSE Garbage(r, s.o),
                                      ![s.o].disk = IF @ = <<>> THEN Garbage(r, s.o) ELSE @]
      [] s.op = "load" -> [m EXCEPT ![s.o].live = TRUE, ![s.o].tab = IF s.z THEN Zeros(r, s.o) ELSE m[s.o].disk]
      [] s.op = "zero" -> [m EXCEPT ![s.o].tab = Zeros(r, s.o)]
      [] s.op = "unload" -> [m EXCEPT ![s.o].live = FALSE, ![s.o].tab = <<>>]
      [] s.op = "destroy" -> [m EXCEPT ![s.o].live = FALSE, ![s.o].tab = <<>>, ![s.o].disk = <<>>]
      \* storing a result takes it out of memory
      [] s.op = "persist" -> [m EXCEPT ![s.o].live = FALSE, ![s.o].disk = m[s.o].tab, ![s.o].tab = <<>>]
      [] s.op = "compute" -> (LET add == Table(r, s.o, s.sl, Fill(r, m, s.e))
                              IN [m EXCEPT ![s.o].tab = [q \in 1..Len(@) |-> (@[q] + add[q]) % P]])
      \* a new scope: what was declared in the previous one of its kind is unknown
      [] s.op = "declare+" -> [o \in DOMAIN m |-> [m[o] EXCEPT !.decl = IF s.forget[r.objs[o].kind] THEN FALSE ELSE @]]
      [] OTHER -> m
Moved(w, s) ==
    CASE s.op = "declare+" -> [w EXCEPT !.decls = TRUE, !.idx = IF s.forget.index THEN {} ELSE @]
      [] s.op = "declare-" -> [w EXCEPT !.decls = FALSE]
      [] s.op = "index" -> [w EXCEPT !.idx = @ \cup {s.i}]
      [] s.op = "section+" -> [w EXCEPT !.sect = TRUE]
      [] s.op = "section-" -> [w EXCEPT !.sect = FALSE]
      [] s.op = "expr+" -> [w EXCEPT !.expr = TRUE]
      [] s.op = "expr-" -> [w EXCEPT !.expr = FALSE]
      [] OTHER -> w

----------------------------------------------------------------------------
Final(r, m, w) ==
    LET want == [n \in 1..Len(r.want) |-> Table(r, r.want[n].o, r.want[n].sl, r.want[n].e)]
        unclear == {n \in 1..Len(r.inputs) : InputTable(r, n) # InputTable(r, Min(InputsOf(r, r.inputs[n].o)))}
    IN  IF unclear # {} THEN [v |-> "two inputs have one name", at |-> Min(unclear)]
        ELSE IF \E o \in DOMAIN m : m[o].live THEN [v |-> "left in memory", at |-> Min({o \in DOMAIN m : m[o].live})]
        ELSE IF w.sect \/ w.expr \/ w.decls THEN [v |-> "unfinished", at |-> 0]
        ELSE IF \E n \in 1..Len(r.want) : m[r.want[n].o].disk = <<>> THEN [v |-> "a result was not stored", at |-> 0]
        ELSE IF \E n \in 1..Len(r.want) : m[r.want[n].o].disk # want[n]
             THEN [v |-> "wrong result", at |-> Min({n \in 1..Len(r.want) : m[r.want[n].o].disk # want[n]})]
        ELSE IF \A n \in 1..Len(r.want) : \A q \in 1..Len(want[n]) : want[n][q] = 0 THEN [v |-> "zero", at |-> 0]
        ELSE [v |-> "right", at |-> 0]

Outside == [decls |-> FALSE, sect |-> FALSE, expr |-> FALSE, idx |-> {}]
Init == /\ case \in 1..Len(Programs)
        /\ pc = 0 /\ at = Outside
        /\ mem = Start(Programs[case])
        /\ verdict = "running"
Say(v, n) == IF v = "right" THEN TRUE ELSE PrintT("JUDGED " \o ToJson([case |-> case, v |-> v, at |-> n]))
Execute == LET r == Programs[case]
               s == r.st[pc + 1]
               c == Complaint(r, mem, at, s)
           IN  /\ verdict = "running" /\ pc < Len(r.st)
               /\ IF c = "" THEN mem' = TLCEval(Effect(r, mem, s)) /\ at' = Moved(at, s) /\ verdict' = verdict
                  ELSE verdict' = c /\ UNCHANGED <<mem, at>> /\ Say(c, pc + 1)
               /\ pc' = pc + 1
               /\ UNCHANGED case
End == /\ verdict = "running" /\ pc = Len(Programs[case].st)
       /\ LET f == TLCEval(Final(Programs[case], mem, at)) IN verdict' = f.v /\ Say(f.v, f.at)
       /\ UNCHANGED <<case, pc, mem, at>>
Next == Execute \/ End
Spec == Init /\ [][Next]_vars

\* the machine keeps its memory in order
MemoryInv == \A o \in DOMAIN mem : /\ mem[o].live <=> mem[o].tab # <<>>
                                   /\ mem[o].live => Len(mem[o].tab) = Size(Programs[case].objs[o].d)
=============================================================================
