------------------------------- MODULE Orders -------------------------------
(* What == , != , hashes and the orders said of a batch of objects, against  *)
(* what a user can see of them (Objects).                                    *)
EXTENDS Objects

VARIABLES case, verdict
Trace == ndJsonDeserialize(IOEnv.CASES)

IncAsEqual == {"index <", "index full", "op <"}
Type(o) == <<o.i.sp, Bag(o.i.pr)>>
Spaces_(s) == [i \in 1..Len(s) |-> s[i].sp]
Label(o) == <<o.i.sp, o.i.ord>>

Judge(r) ==
  LET n == Len(r.o)
      N == 1..n
      seen == TLCEval([i \in N |-> SeenX(r.o[i])])
      cls == TLCEval([i \in N |-> CHOOSE j \in N : seen[j] = seen[i] /\ \A k \in 1..(j - 1) : seen[k] # seen[i]])
      Lt(m, i, j) == m[i][j] = 1
      Inc(m, i, j) == m[i][j] = 0 /\ m[j][i] = 0
      Bad(what, i, j, k) == [v |-> what, at |-> <<i, j, k>>]
      Viol(what, P(_, _)) == {Bad(what, x[1], x[2], 0) : x \in {y \in N \X N : P(y[1], y[2])}}
      equal == Viol("== is not 'the same in all that can be seen'", LAMBDA i, j : (r.eq[i][j] = 1) # (cls[i] = cls[j]))
      unequal == Viol("!= is not the opposite of ==", LAMBDA i, j : r.ne[i][j] = r.eq[i][j])
      hash == Viol("equal objects have different hashes", LAMBDA i, j : cls[i] = cls[j] /\ r.hash[i] # r.hash[j])
      order(w) == LET m == r.lt[w]
                      up == TLCEval([i \in N |-> {j \in N : Lt(m, i, j)}])
                      in == TLCEval([i \in N |-> {j \in N : Inc(m, i, j)}])
                  IN
           Viol(w \o ": x < y and y < x", LAMBDA i, j : Lt(m, i, j) /\ Lt(m, j, i))
           \cup Viol(w \o ": one of two equal objects precedes the other", LAMBDA i, j : cls[i] = cls[j] /\ Lt(m, i, j))
           \cup (IF w \in IncAsEqual THEN Viol(w \o ": neither of two different objects precedes the other", LAMBDA i, j : cls[i] # cls[j] /\ Inc(m, i, j)) ELSE {})
           \cup UNION {LET q == up[i] IN {Bad(w \o ": not transitive", i, j, CHOOSE k \in up[j] \ q : TRUE) : j \in {x \in q : ~(up[x] \subseteq q)}} : i \in N}
           \cup UNION {{Bad(w \o ": 'neither precedes the other' is not transitive", i, j, CHOOSE k \in N : (k \in in[i]) # (k \in in[j])) : j \in {x \in in[i] : in[x] # in[i]}} : i \in N}
      Of(w, o) == CASE w = "index type" -> Type(o)
                    [] w = "index label" -> Label(o)
                    [] w = "op type" -> <<o.act, Type(o)>>
                    [] w = "block" -> LET t == SeenSlots(o)
                                          F(u) == SelectSeq([q \in 1..Len(u) |-> u[q][1]], LAMBDA e : e # 0)
                                      IN <<o.label, Len(t[1]) + Len(t[2]) + Len(o.x), F(t[1] \o t[2]) \o Spaces_(o.x)>>
      Views == {"index type", "index label", "op type", "block"} \cap (DOMAIN r.same \cup DOMAIN r.lt)
      of == TLCEval([w \in Views |-> [i \in N |-> Of(w, r.o[i])]])
      Same(w, i, j) == of[w][i] = of[w][j]
      kind(w) == IF w \in DOMAIN r.same THEN Viol(w \o ": 'same' differs", LAMBDA i, j : (r.same[w][i][j] = 1) # Same(w, i, j)) ELSE {}
      kinc(w) == IF w \in DOMAIN r.lt THEN Viol(w \o ": neither precedes the other, or one does though they are the same", LAMBDA i, j : Inc(r.lt[w], i, j) # Same(w, i, j)) ELSE {}
      all == IF r.err # "" THEN {} ELSE equal \cup unequal \cup hash \cup UNION {order(w) : w \in DOMAIN r.lt} \cup UNION {kind(w) \cup kinc(w) : w \in Views}
  IN IF r.err # "" THEN [v |-> r.err, at |-> <<0, 0, 0>>, pairs |-> 0] ELSE
     IF all = {} THEN [v |-> "ok", at |-> <<0, 0, 0>>, pairs |-> Cardinality({x \in N \X N : x[1] < x[2] /\ cls[x[1]] = cls[x[2]]})]
     ELSE LET b == CHOOSE x \in all : TRUE IN [v |-> b.v, at |-> b.at, pairs |-> 0]

JInit == case \in 1..Len(Trace) /\ verdict = "unread" /\ fam = "" /\ h = <<>>
JNext == /\ verdict = "unread"
         /\ LET j == Judge(Trace[case]) IN
              /\ PrintT("JUDGED " \o ToJson([case |-> case, v |-> j.v, at |-> j.at, pairs |-> j.pairs]))
              /\ verdict' = j.v
         /\ UNCHANGED <<case, fam, h>>
JSpec == JInit /\ [][JNext]_<<case, verdict, fam, h>>
AllJudged == TLCGet("stats").distinct >= 2 * Len(Trace)
=============================================================================
