----------------------------- MODULE QueryPrivacy -----------------------------
(* What a query reveals. A hyperproperty: the number of random tapes of the
   client that lead to a view is the same for all the things it may ask for, so
   the view has the same distribution. Each state is one question about one
   view; the invariant compares the counts.

   "xor"  - point queries to k >= 3 servers: all proper coalitions, all indices.
   "key"  - a point-function key as one of the two servers sees it. The server
            knows its own seed and expands it with the public generator (here an
            arbitrary function own), the expansions of the other seed are uniform
            to it (the generator being pseudorandom); the value shared has two
            elements, 1 and the verification key alpha, both of which have to
            stay hidden.
   "mask" - single-server schemes: a uniform mask (under DDH and LWE the masks
            r.H_j and s.A+e are indistinguishable from it) plus t at the index.
   "ask"  - how many servers a query may be sent to, and that nothing is sent
            when the randomness runs out. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxCols, MaxServers, Q, Levels

Bit == {0, 1}
XorB(a, b) == (a + b) % 2
F == 0..(Q-1)
Neg(z) == (Q - z) % Q

(* ---- shares ---- *)
RECURSIVE SumTape(_, _, _)
SumTape(tp, k, c) == IF k = 0 THEN 0 ELSE XorB(tp[k][c], SumTape(tp, k-1, c))
Tapes(k, cols) == [1..(k-1) -> [1..cols -> Bit]]
Share(tp, k, cols, i, s) ==
  IF s < k THEN tp[s]
  ELSE [c \in 1..cols |-> XorB(SumTape(tp, k-1, c), IF c = i THEN 1 ELSE 0)]
View(tp, k, cols, i, C) == [s \in C |-> Share(tp, k, cols, i, s)]

(* ---- keys ---- *)
Outputs == Bit \X Bit \X Bit \X Bit
SeedOf(o, bit) == IF bit = 0 THEN o[1] ELSE o[3]
TOf(o, bit) == IF bit = 0 THEN o[2] ELSE o[4]
Vals == F \X F
KeyTapes(n) == [1..n -> Outputs] \X Vals
\* the correction words and the state of the server on the path of a, level by level
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(n, lev, a, own, tp, s, t, cw) ==
  IF lev > n THEN <<s, t, cw>>
  ELSE LET o == own[s]  p == tp[1][lev]  keep == a[lev]  lose == 1 - keep
           c == <<XorB(SeedOf(o, lose), SeedOf(p, lose)),
                  XorB(XorB(o[2], p[2]), XorB(keep, 1)), XorB(XorB(o[4], p[4]), keep)>>
           ck == IF keep = 0 THEN c[2] ELSE c[3]
       IN Walk(n, lev+1, a, own, tp, XorB(SeedOf(o, keep), t * c[1]), XorB(TOf(o, keep), t * ck), Append(cw, c))
KeyView(n, a, val, own, conv, s, t, tp) ==
  LET w == Walk(n, 1, a, own, tp, s, t, <<>>)
      fin == [x \in 1..2 |-> LET v == (val[x] + Neg(conv[w[1]][x]) + tp[2][x]) % Q IN IF w[2] = 1 THEN v ELSE Neg(v)]
  IN <<w[3], fin>>
KeyDist(n, a, val, own, conv, s, t) ==
  LET img == {<<tp, KeyView(n, a, val, own, conv, s, t, tp)>> : tp \in KeyTapes(n)}
      vs == {p[2] : p \in img}
  IN [v \in vs |-> Cardinality({p \in img : p[2] = v})]

(* ---- masks ---- *)
MaskView(u, t, i) == [c \in DOMAIN u |-> (u[c] + (IF c = i THEN t ELSE 0)) % Q]

Allowed(scheme, k) == IF scheme = "point" THEN k >= 2 ELSE k = 2

Fed(need, given) == given >= need

VARIABLE q
None == [kind |-> "none"]
Init == q = None
AskXor == \E k \in 3..MaxServers, cols \in 1..MaxCols :
  \E C \in (SUBSET (1..k)) \ {{}, 1..k}, i \in 1..cols, tp \in Tapes(k, cols) :
     q' = [kind |-> "xor", k |-> k, cols |-> cols, C |-> C, view |-> View(tp, k, cols, i, C)]
AskKey == \E n \in Levels : \E own \in (IF n = 1 THEN {[s \in Bit |-> o] : o \in Outputs} ELSE {f \in [Bit -> Outputs] : f[0][1] = 0 /\ f[0][4] = 1 /\ f[1][2] = 1}),
                 conv \in {f \in [Bit -> {<<0, 0>>, <<1, 0>>, <<Q-1, 1>>}] : n = 1 \/ (f[0] = <<1, 0>> /\ f[1] # f[0])}, t \in Bit, s \in Bit :
     q' = [kind |-> "key", n |-> n, own |-> own, conv |-> conv, s |-> s, t |-> t]
AskMask == \E cols \in 1..MaxCols : \E u \in [1..cols -> F], t \in F, i \in 1..cols :
     q' = [kind |-> "mask", cols |-> cols, view |-> MaskView(u, t, i)]
\* the source of randomness may fail before it has delivered a tape
AskK == \E k \in 0..MaxServers, sc \in {"point", "predicate"}, need \in 1..2 : \E given \in 0..need :
     q' = [kind |-> "ask", scheme |-> sc, k |-> k, need |-> need, given |-> given,
           sent |-> IF Allowed(sc, k) /\ Fed(need, given) THEN k ELSE 0]
Next == q.kind = "none" /\ (AskXor \/ AskKey \/ AskMask \/ AskK)
Spec == Init /\ [][Next]_q

CountXor(i) == Cardinality({tp \in Tapes(q.k, q.cols) : View(tp, q.k, q.cols, i, q.C) = q.view})
CountMask(i) == Cardinality({x \in [1..q.cols -> F] \X F : MaskView(x[1], x[2], i) = q.view})
Hidden ==
  CASE q.kind = "xor" -> \A i \in 1..q.cols : CountXor(i) = CountXor(1)
    [] q.kind = "key" ->
         LET ref == KeyDist(q.n, [l \in 1..q.n |-> 0], <<1, 0>>, q.own, q.conv, q.s, q.t)
         IN \A a \in [1..q.n -> Bit], alpha \in F : KeyDist(q.n, a, <<1, alpha>>, q.own, q.conv, q.s, q.t) = ref
    [] q.kind = "mask" -> \A i \in 1..q.cols : CountMask(i) = CountMask(1)
    [] OTHER -> TRUE
\* nothing is ever sent to a single server by a multi-server scheme
Refused == q.kind = "ask" => (q.sent = 0 \/ (q.given = q.need /\ q.sent = q.k /\ q.k >= 2 /\ (q.scheme = "predicate" => q.k = 2)))
===============================================================================
