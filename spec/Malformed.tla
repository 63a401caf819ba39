----------------------------- MODULE Malformed -----------------------------
(* A client and a server of a matrix scheme, and a channel that replaces
   messages by arbitrary ones, at any time and repeatedly. Nobody stops: after
   any of it an undisturbed exchange succeeds, nobody reads outside of a
   message (TLC reports it), and nothing is returned for a malformed one.

   The numbers have one digit less than real ones, the rest is as in the code. *)
EXTENDS Messages, TLC, Json, IOUtils
CONSTANTS Rows, Cols, MaxLen, MaxFaults, Schemes
VARIABLES scheme, pc, wire, pending, undisturbed, result, faults
vars == <<scheme, pc, wire, pending, undisturbed, result, faults>>
Digits == 0..(Base-1)
Db == [scheme |-> scheme, rows |-> Rows, cols |-> Cols, reps |-> 1]
Row(n) == [rows |-> 1, cols |-> n, data |-> [i \in 1..(n * El(scheme)) |-> 1]]
Enc(n) == IF scheme = "amplify" THEN EncBatch(<<Row(n)>>) ELSE EncMat(Row(n))
Msg(b) == [len |-> Len(b), bytes |-> b]
\* what an adversary sends: the header of its choice and data of any length, or anything short
Headers == {Num(r, W) \o Num(c, W) : r \in 0..(Base-1), c \in 0..(Base-1)}
Wrap(b) == IF scheme = "amplify" THEN {Num(x, W) \o b : x \in {0, 1, Len(b) - 1, Len(b), Len(b) + 1} \cap Nat} ELSE {b}
Forged == UNION {Wrap(h \o [i \in 1..n |-> 1]) : h \in Headers, n \in 0..MaxLen} \cup UNION {[1..n -> Digits] : n \in 0..3}

Init == /\ scheme \in Schemes /\ pc = "idle" /\ wire = <<>> /\ pending = FALSE /\ undisturbed = TRUE
        /\ result = "none" /\ faults = 0
Ask == /\ pc \in {"idle", "done"} /\ pc' = "query" /\ wire' = Enc(Rows) /\ pending' = TRUE /\ undisturbed' = TRUE /\ result' = "none"
       /\ UNCHANGED <<scheme, faults>>
Replace == /\ pc \in {"query", "answer"} /\ faults < MaxFaults /\ wire' \in Forged /\ undisturbed' = FALSE /\ faults' = faults + 1
           /\ UNCHANGED <<scheme, pc, pending, result>>
Serve == /\ pc = "query"
         /\ IF IsQuery(Db, Msg(wire)) THEN pc' = "answer" /\ wire' = Enc(Cols) /\ UNCHANGED result
            ELSE pc' = "done" /\ result' = "refused" /\ UNCHANGED wire
         /\ UNCHANGED <<scheme, pending, undisturbed, faults>>
Present == /\ pc = "answer"
           /\ pc' = "done"
           /\ result' = IF pending /\ IsAnswer(Db, FALSE, <<Msg(wire)>>) THEN "value" ELSE "error"
           /\ UNCHANGED <<scheme, wire, pending, undisturbed, faults>>
\* the client may look at another answer for the same query
Again == /\ pc = "done" /\ result = "error" /\ pc' = "answer" /\ wire' = Enc(Cols) /\ undisturbed' = TRUE /\ result' = "none"
         /\ UNCHANGED <<scheme, pending, faults>>
Next == Ask \/ Replace \/ Serve \/ Present \/ Again
Spec == Init /\ [][Next]_vars

Usable == pc = "done" /\ undisturbed => result = "value"
OnlyForAnswers == pc = "done" /\ result = "value" =>
   wire = Enc(Cols) \/ (Len(wire) = Len(Enc(Cols)) /\ IsAnswer(Db, FALSE, <<Msg(wire)>>))

(* the headers and lengths for the replay, with the verdict for the expected dimensions 1 x Rows *)
Scen == {[r |-> r, c |-> c, n |-> n, x |-> x, ok |-> r = 1 /\ c = Rows /\ n = Rows /\ x = 0] :
           r \in 0..(Base-1), c \in 0..(Base-1), n \in 0..(2 * Base), x \in {0, 1, 3}}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
ASSUME IF "VERIF_SCEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.VERIF_SCEN, ToSeq(Scen)) ELSE TRUE
=============================================================================
