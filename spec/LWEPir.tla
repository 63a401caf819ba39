------------------------------- MODULE LWEPir -------------------------------
(* Single-server retrieval from lattices (client/lwe.go, server/lwe.go), modulo
   a small Q. The database is a binary matrix with Rows x Cols entries, D its
   digest A.DB; the client asks s.A + e + t.u_i and subtracts s.D from the
   answer: what remains in column c is t.DB[i][c] plus noise. It reads a column
   as 0 if the remainder is smaller than the bound, as 1 if the remainder minus
   t is, and rejects the answer if some column is neither.

   The adversary adds d to a column. Whether that helps depends on t, which it
   does not know: t is uniform over all values. The amplified scheme repeats
   this and takes the majority. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rows, Cols, Q, E, Secrets, Reps,  \* E: noise of an entry
          Redraw    \* whether the client draws t again until it can be told from the noise
R == 1..Rows
C == 1..Cols
Zq == 0..(Q-1)
Bit == {0, 1}
B == Rows * E + 1                            \* the bound on the noise of a column
Mod(x) == x % Q
Abs(x) == IF Mod(x) * 2 > Q THEN Q - Mod(x) ELSE Mod(x)     \* distance to 0
InRange(v) == Abs(v) < B
A(i) == (3 * i + 1) % Q
\* what t has to be for the client to distinguish the bits; the others are 4B out of Q
Usable == {x \in Zq : Abs(x) >= 2 * B}

VARIABLES phase, db, i, j, s, e, t, d, outcome
vars == <<phase, db, i, j, s, e, t, d, outcome>>
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n-1)
QueryEl(r) == Mod(s * A(r) + e[r] + (IF r = i THEN t ELSE 0))
HonestAnswer(c) == Mod(Sum([r \in R |-> QueryEl(r) * db[r][c]], Rows))
DigestEl(c) == Mod(Sum([r \in R |-> A(r) * db[r][c]], Rows))
Remainder(c) == Mod(HonestAnswer(c) + d[c] - s * DigestEl(c))
Read(v) == IF InRange(v) THEN 0 ELSE IF InRange(v - t) THEN 1 ELSE 2
Client == IF \E c \in C : Read(Remainder(c)) = 2 THEN 2 ELSE Read(Remainder(j))

Init == /\ phase = "start" /\ db \in [R -> [C -> Bit]] /\ i \in R /\ j \in C
        /\ s = 0 /\ e = [r \in R |-> 0] /\ t = 0 /\ d = [c \in C |-> 0] /\ outcome = 3
Ask == /\ phase = "start" /\ phase' = "asked" /\ s' \in Secrets /\ e' \in [R -> (0-E)..E] /\ t' \in (IF Redraw THEN Usable ELSE Zq)
       /\ UNCHANGED <<db, i, j, d, outcome>>
Honest == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<db, i, j, s, e, t, d, outcome>>
Deviate == /\ phase = "asked" /\ phase' = "answered"
           /\ \E c \in C, x \in Zq : d' = [d EXCEPT ![c] = x]
           /\ UNCHANGED <<db, i, j, s, e, t, outcome>>
Reconstruct == /\ phase = "answered" /\ phase' = "done" /\ outcome' = Client
               /\ UNCHANGED <<db, i, j, s, e, t, d>>
Next == Ask \/ Honest \/ Deviate \/ Reconstruct
Spec == Init /\ [][Next]_vars

Done == phase = "done"
HonestRun == \A c \in C : d[c] = 0
Correct == Done /\ HonestRun => outcome = db[i][j]
\* the server would have to guess t up to the noise
Guess(x) == Abs(x - t) < 2 * B \/ Abs(x + t) < 2 * B
Sound == Done /\ (\E c \in C : Abs(d[c]) >= 2 * B /\ ~Guess(d[c])) => outcome = 2
NoFlip == Done /\ (\A c \in C : ~Guess(d[c])) => outcome \in {2, db[i][j]}
\* the values of d which a column tolerates are an interval of 2B-1 values that contains 0
Window == Done => \A c \in C :
   LET ok == {x \in Zq : Read(Mod(Remainder(c) - d[c] + x)) = db[i][c] /\ ~Guess(x)}
   IN Cardinality(ok) <= 2 * B - 1 /\ 0 \in ok

\* the amplified scheme: every repetition has to be accepted
Majority(w) == IF 2 * Cardinality({k \in DOMAIN w : w[k] = 1}) > Len(w) THEN 1
               ELSE IF 2 * Cardinality({k \in DOMAIN w : w[k] = 0}) > Len(w) THEN 0 ELSE 2
Amplified(w) == IF \E k \in DOMAIN w : w[k] = 2 THEN 2 ELSE Majority(w)
AmplifiedSound == \A w \in [1..Reps -> {0, 1, 2}] :
   /\ (\E k \in 1..Reps : w[k] = 2) => Amplified(w) = 2
   /\ \A b \in Bit : (\A k \in 1..Reps : w[k] # 2) /\ 2 * Cardinality({k \in 1..Reps : w[k] # b}) < Reps => Amplified(w) = b
ASSUME AmplifiedSound
=============================================================================
