----------------------------- MODULE Predicates -----------------------------
(* The predicates of lib/query over the metadata of a key, and the answers of
   counting and averaging queries. A key is a record with fields email (a
   sequence), year (of creation, UTC), time (the creation instant) and algo. *)
EXTENDS Integers, Sequences, FiniteSets, Functions

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s)-Len(p)+1, Len(s)) = p
EmailMatches(key, pred) ==
  CASE pred.part = "start" -> StartsWith(key.email, pred.text)
    [] pred.part = "end" -> EndsWith(key.email, pred.text)
    [] pred.part = "equal" -> key.email = pred.text
Matches(key, pred) ==
  CASE pred.kind = "email" -> EmailMatches(key, pred)
    [] pred.kind = "algo" -> key.algo = pred.algo
    [] pred.kind = "time" -> key.time = pred.time
    [] pred.kind = "and" -> key.year = pred.year /\ EmailMatches(key, pred)
    [] pred.kind = "avg" -> EmailMatches(key, pred)

Selected(keys, pred) == {i \in DOMAIN keys : Matches(keys[i], pred)}
Count(keys, pred) == Cardinality(Selected(keys, pred))
\* the keys from the future do not take part in an average
Aged(keys, pred, now) == {i \in Selected(keys, pred) : keys[i].year <= now}
SumAges(keys, S, now) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [i \in S |-> now - keys[i].year], S)
NoAnswer == -1
Average(keys, pred, now) ==
  LET S == Aged(keys, pred, now) IN
  IF S = {} THEN NoAnswer ELSE SumAges(keys, S, now) \div Cardinality(S)
\* the answer to a query, or NoAnswer when there is none
Answer(keys, pred, now) == IF pred.kind = "avg" THEN Average(keys, pred, now) ELSE Count(keys, pred)
=============================================================================
