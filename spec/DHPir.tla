-------------------------------- MODULE DHPir --------------------------------
(* Single-server retrieval from the discrete-logarithm scheme (client/dh.go,
   server/dh.go). Group elements are formal linear combinations of what nobody
   can relate: r.H_j (one for each column j), t.H_y (the blinding of the queried
   column y) and one element e that stands for everything else the server knows
   (H_j, the generator, elements of earlier queries). The server only combines
   elements it was given; an equation which holds formally is one that holds for
   all secrets r and t, any other one holds with negligible probability.

   The query has Q_j = r.H_j, and Q_y = r.H_y + t.H_y. The server answers one
   element per row; the client subtracts r times the digest of the row and
   accepts a row if what remains is nothing (the bit is 0) or t.H_y (it is 1). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Rows, Cols, Coefs, MaxBad   \* MaxBad: rows that deviate from the honest answer
Bit == {0, 1}
R == 1..Rows
C == 1..Cols
\* combinations: coefficients of r.H_j, of t.H_y, of the rest
Elem(rh, th, e) == [rh |-> rh, th |-> th, e |-> e]
Zero == Elem([j \in C |-> 0], 0, 0)

VARIABLES phase, x, y, row, published, answer, outcome
vars == <<phase, x, y, row, published, answer, outcome>>
Digest(bits) == bits              \* coefficients of H_j
\* an answer of the server: for each row coefficients of the elements of the query and of the rest
Combine(a, yy) == Elem([j \in C |-> a.c[j]], a.c[yy], a.e)
HonestRow(bits) == [c |-> [j \in C |-> bits[j]], e |-> 0]
RowAnswers == [c : [C -> Coefs], e : {0, 1}]
Remainder(a, bits, yy) == LET m == Combine(a, yy) IN Elem([j \in C |-> m.rh[j] - bits[j]], m.th, m.e)
Accepts(m) == m = Zero \/ m = [Zero EXCEPT !.th = 1]
BitOf(m) == IF m = Zero THEN 0 ELSE 1
Client(ans, bits, rr, yy) ==
  IF Len(ans) # Rows THEN "reject"
  ELSE IF \A i \in R : Accepts(Remainder(ans[i], bits[i], yy))
  THEN ToString(BitOf(Remainder(ans[rr], bits[rr], yy))) ELSE "reject"

Init == /\ phase = "start" /\ x \in [R -> [C -> Bit]] /\ y = 1 /\ row = 1 /\ published = x
        /\ answer = <<>> /\ outcome = "none"
\* a client with a description whose digests do not match refuses it
Publish == /\ phase = "start" /\ phase' \in {"trusted", "refused"}
           /\ UNCHANGED <<x, y, row, answer, outcome, published>>
Ask == /\ phase = "trusted" /\ phase' = "asked" /\ y' \in C /\ row' \in R
       /\ UNCHANGED <<x, published, answer, outcome>>
Honest == /\ phase = "asked" /\ phase' = "answered" /\ answer' = [i \in R |-> HonestRow(x[i])]
          /\ UNCHANGED <<x, y, row, published, outcome>>
Dishonest == /\ phase = "asked" /\ phase' = "answered"
             /\ \E bad \in SUBSET R : Cardinality(bad) \in 1..MaxBad /\ \E d \in [bad -> RowAnswers] :
                  answer' = [i \in R |-> IF i \in bad THEN d[i] ELSE HonestRow(x[i])]
             /\ UNCHANGED <<x, y, row, published, outcome>>
Reconstruct == /\ phase = "answered" /\ phase' = "done" /\ outcome' = Client(answer, published, row, y)
               /\ UNCHANGED <<x, y, row, published, answer>>
Next == Publish \/ Ask \/ Honest \/ Dishonest \/ Reconstruct
Spec == Init /\ [][Next]_vars

Integrity == phase = "done" => outcome \in {"reject", ToString(x[row][y])}
Correct == phase = "done" /\ (\A i \in R : answer[i] = HonestRow(x[i])) => outcome = ToString(x[row][y])
\* only the honest answer is accepted at all
Tight == phase = "done" /\ outcome # "reject" => \A i \in R : answer[i] = HonestRow(x[i])

Scenarios == UNION {{[bad |-> i, c |-> a.c, e |-> a.e] : i \in R} : a \in RowAnswers}
Export == "VERIF_SCEN" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.VERIF_SCEN, SetToSeq(Scenarios))
ASSUME Export
==============================================================================
