--------------------------------- MODULE FSS ---------------------------------
(* Function secret sharing of point functions (lib/fss): the tree construction
   with one correction word per level and a final correction, over an arbitrary
   pseudorandom generator G and an arbitrary conversion Conv of seeds to
   elements of a prime field. Seeds have one bit here: the construction is
   correct for every G, so all the generators over a small domain are explored.

   Generation walks down the path of the target a; then both keys are evaluated
   at any input. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Depths,  \* numbers of input bits
          Q        \* the field
Bit == {0, 1}
Seed == {0, 1}
XorB(a, b) == (a + b) % 2
\* G(s) = <<left seed, left bit, right seed, right bit>>
Outputs == Bit \X Bit \X Bit \X Bit
Neg(x) == (Q - x) % Q

VARIABLES n, a, b, g, conv, phase, level,
          s0, t0, s1, t1,      \* the current seed and bit of the two keys
          init, cw, final,     \* the keys: initial seeds and bits, correction words
          x, pos, e, tt, out   \* the two evaluations
vars == <<n, a, b, g, conv, phase, level, s0, t0, s1, t1, init, cw, final, x, pos, e, tt, out>>

Init == /\ n \in Depths /\ a \in [1..n -> Bit] /\ b \in 0..(Q-1)
        /\ g \in [Seed -> Outputs] /\ conv \in [Seed -> 0..(Q-1)]
        /\ s0 \in Seed /\ s1 \in Seed /\ t0 \in Bit /\ t1 = 1 - t0
        /\ init = <<<<s0, t0>>, <<s1, t1>>>>
        /\ phase = "gen" /\ level = 1 /\ cw = <<>> /\ final = 0
        /\ x = <<>> /\ pos = 0 /\ e = <<0, 0>> /\ tt = <<0, 0>> /\ out = <<0, 0>>

SeedOf(o, bit) == IF bit = 0 THEN o[1] ELSE o[3]
TOf(o, bit) == IF bit = 0 THEN o[2] ELSE o[4]

GenLevel ==
  /\ phase = "gen" /\ level <= n
  /\ LET o0 == g[s0]  o1 == g[s1]  keep == a[level]  lose == 1 - keep
         c == [s |-> XorB(SeedOf(o0, lose), SeedOf(o1, lose)),
               tl |-> XorB(XorB(o0[2], o1[2]), XorB(keep, 1)),
               tr |-> XorB(XorB(o0[4], o1[4]), keep)]
         ck == IF keep = 0 THEN c.tl ELSE c.tr
     IN /\ cw' = Append(cw, c)
        /\ s0' = XorB(SeedOf(o0, keep), t0 * c.s) /\ s1' = XorB(SeedOf(o1, keep), t1 * c.s)
        /\ t0' = XorB(TOf(o0, keep), t0 * ck) /\ t1' = XorB(TOf(o1, keep), t1 * ck)
  /\ level' = level + 1
  /\ UNCHANGED <<n, a, b, g, conv, phase, init, final, x, pos, e, tt, out>>
GenFinal ==
  /\ phase = "gen" /\ level > n
  /\ final' = LET v == (b + Neg(conv[s0]) + conv[s1]) % Q IN IF t1 = 1 THEN Neg(v) ELSE v
  /\ phase' = "ready"
  /\ UNCHANGED <<n, a, b, g, conv, level, s0, t0, s1, t1, init, cw, x, pos, e, tt, out>>

Start == /\ phase = "ready" /\ x' \in [1..n -> Bit] /\ phase' = "eval" /\ pos' = 1
         /\ e' = <<init[1][1], init[2][1]>> /\ tt' = <<init[1][2], init[2][2]>>
         /\ UNCHANGED <<n, a, b, g, conv, level, s0, t0, s1, t1, init, cw, final, out>>
Down(s, t, c, bit) ==
  LET o == g[s] IN <<XorB(SeedOf(o, bit), t * c.s), XorB(TOf(o, bit), t * (IF bit = 0 THEN c.tl ELSE c.tr))>>
Step == /\ phase = "eval" /\ pos <= n
        /\ LET d0 == Down(e[1], tt[1], cw[pos], x[pos])  d1 == Down(e[2], tt[2], cw[pos], x[pos])
           IN e' = <<d0[1], d1[1]>> /\ tt' = <<d0[2], d1[2]>>
        /\ pos' = pos + 1
        /\ UNCHANGED <<n, a, b, g, conv, phase, level, s0, t0, s1, t1, init, cw, final, x, out>>
Finish == /\ phase = "eval" /\ pos > n /\ phase' = "done"
          /\ out' = <<(conv[e[1]] + tt[1] * final) % Q, Neg((conv[e[2]] + tt[2] * final) % Q)>>
          /\ UNCHANGED <<n, a, b, g, conv, level, s0, t0, s1, t1, init, cw, final, x, pos, e, tt>>
Next == GenLevel \/ GenFinal \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

PointFunction(aa, bb, xx) == IF xx = aa THEN bb ELSE 0
\* the shares add up to the point function
Correct == phase = "done" => (out[1] + out[2]) % Q = PointFunction(a, b, x)
\* the reason: on the path of a the bits differ, elsewhere the states are equal
OnPath == SubSeq(x, 1, pos-1) = SubSeq(a, 1, pos-1)
TreeInvariant == phase = "eval" => IF OnPath THEN tt[1] # tt[2] ELSE tt[1] = tt[2] /\ e[1] = e[2]
=============================================================================
