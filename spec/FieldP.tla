------------------------------- MODULE FieldP -------------------------------
(* Arithmetic modulo the prime p = 2^31 - 1 of lib/field within the 32-bit
   integers of TLC. An arbitrary 32-bit word is written <<hi, lo>> (16 bits each). *)
EXTENDS Integers, Sequences
P == 2147483647
Canonical(x) == x \in 0..(P-1)
AddP(a, b) == IF a >= P - b THEN a - (P - b) ELSE a + b
NegP(a) == IF a = 0 THEN 0 ELSE P - a
\* the residue of a 32-bit word: 2^31 is 1 modulo p
Residue(w) == LET low == (w[1] % 32768) * 65536 + w[2]
                  r == IF low = P THEN 0 ELSE low
              IN IF w[1] >= 32768 THEN AddP(r, 1) ELSE r
\* the word is at most p, so that adding it to an element does not overflow
Small(w) == w[1] < 32768
WordIsCanonical(w) == w[1] < 32768 /\ ~(w[1] = 32767 /\ w[2] = 65535)
=============================================================================
