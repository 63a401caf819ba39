------------------------------ MODULE FssCount ------------------------------
(* Counting and averaging over key metadata with two servers, plain and
   authenticated (lib/client/fss.go, lib/server/fss.go).

   Each server adds up its shares of v * (1, alpha_1, .., alpha_M) for every key
   that satisfies the predicate (v is 1, and for averages also the age), so the
   answers are a sharing of m * (1, alpha_1, .., alpha_M) with m the count (and
   of the sum of ages). The client adds the answers and checks that every tag is
   alpha_i times the value. One server may add any deviation to its answer.

   The field is small here; the tags are then guessed with a probability which
   is not negligible, but exactly 1/Q per tag, which is what is checked. *)
EXTENDS Predicates, TLC

CONSTANTS Q, Tags,       \* the field and the number of tags (0: plain scheme)
          MaxKeys, Emails, Years, Now, Texts

Vec == [1..(1+Tags) -> 0..(Q-1)]
Add(u, v) == [i \in DOMAIN u |-> (u[i] + v[i]) % Q]
Sub(u, v) == [i \in DOMAIN u |-> (u[i] + Q - v[i]) % Q]
Scale(c, v) == [i \in DOMAIN v |-> (c * v[i]) % Q]

KeyRecs == [email : Emails, year : Years, time : {"t"}, algo : {1}]
Tables == UNION {[1..n -> KeyRecs] : n \in 0..MaxKeys}
Preds == [kind : {"email", "and", "avg"}, part : {"start", "end", "equal"}, text : Texts, year : {CHOOSE y \in Years : TRUE}]

VARIABLES keys, pred, alpha, phase,
          share,      \* what the first server's answer is, for the count and for the sum
          ans,        \* <<server, <<count vector, sum vector>>>>
          dev,        \* the deviation: <<vector, vector>>
          out
vars == <<keys, pred, alpha, phase, share, ans, dev, out>>

Zero == [i \in 1..(1+Tags) |-> 0]
Err == -2
Init == /\ keys \in Tables /\ pred \in Preds
        /\ alpha = Zero /\ phase = "idle" /\ share = <<Zero, Zero>> /\ ans = <<>> /\ dev = <<Zero, Zero>> /\ out = Err
Secret(a) == [i \in 1..(1+Tags) |-> IF i = 1 THEN 1 ELSE a[i]]
Query == /\ phase = "idle" /\ phase' = "asked"
         /\ alpha' \in {v \in Vec : v[1] = 1}
         /\ UNCHANGED <<keys, pred, share, ans, dev, out>>
\* the two answers are a random sharing of the true vectors
CountOf == IF pred.kind = "avg" THEN Cardinality(Aged(keys, pred, Now)) ELSE Count(keys, pred)
SumOf == IF pred.kind = "avg" THEN SumAges(keys, Aged(keys, pred, Now), Now) ELSE 0
Serve == /\ phase = "asked" /\ phase' = "answered"
         /\ \E r \in {Zero, [i \in 1..(1+Tags) |-> Q-1]} :
              /\ share' = <<r, r>>
              /\ ans' = << share', <<Sub(Scale(CountOf, alpha), r), Sub(Scale(SumOf, alpha), r)>> >>
         /\ UNCHANGED <<keys, pred, alpha, dev, out>>
\* one server deviates; in a count there is no sum part
Deviate == /\ phase = "answered" /\ phase' = "sent"
           /\ \E s \in {1, 2}, d \in Vec, e \in (IF pred.kind = "avg" THEN Vec ELSE {Zero}) :
                /\ dev' = <<d, e>>
                /\ ans' = [ans EXCEPT ![s] = <<Add(@[1], d), Add(@[2], e)>>]
           /\ UNCHANGED <<keys, pred, alpha, share, out>>
TagsOk(v) == \A i \in 2..(1+Tags) : v[i] = (alpha[i] * v[1]) % Q
Reconstruct ==
  /\ phase = "sent" /\ phase' = "done"
  /\ LET c == Add(ans[1][1], ans[2][1])
         s == Add(ans[1][2], ans[2][2])
     IN out' = IF ~TagsOk(c) \/ (pred.kind = "avg" /\ ~TagsOk(s)) THEN Err
               ELSE IF pred.kind # "avg" THEN c[1]
               ELSE IF c[1] = 0 THEN NoAnswer ELSE s[1] \div c[1]
  /\ UNCHANGED <<keys, pred, alpha, share, ans, dev>>
Next == Query \/ Serve \/ Deviate \/ Reconstruct
Spec == Init /\ [][Next]_vars

\* the field is large enough for the table
Small == SumOf < Q /\ CountOf < Q
Correct == phase = "done" /\ dev = <<Zero, Zero>> /\ Small => out = Answer(keys, pred, Now)
\* a wrong answer is accepted only when the deviation hits all the secret tags:
\* it has to be a multiple of the secret vector
Guessed(d) == \A i \in 2..(1+Tags) : d[i] = (alpha[i] * d[1]) % Q
Sound == phase = "done" /\ Tags > 0 /\ Small /\ out \notin {Err, Answer(keys, pred, Now)}
         => Guessed(dev[1]) /\ Guessed(dev[2]) /\ (dev[1][1] # 0 \/ dev[2][1] # 0)
\* which happens for one of Q^Tags secret vectors
ASSUME \A d \in Vec : d[1] # 0 => Cardinality({a \in {v \in Vec : v[1] = 1} : \A i \in 2..(1+Tags) : d[i] = (a[i] * d[1]) % Q}) = 1
=============================================================================
