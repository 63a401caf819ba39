--------------------------- MODULE FssCountTrace ---------------------------
(* Recorded counting and averaging sessions, explained by FssCount: the answer
   of honest servers is Predicates!Answer over the table; with a deviating
   server the client reports an error or that same answer. *)
EXTENDS TraceLib, Predicates
VARIABLES l, db
vars == <<l, db>>

Keys == Trace[db].keys
Now == Trace[db].now
Correct(e) == Answer(Keys, e.pred, Now)

AnswerOk(e) == LET a == Correct(e) IN
               IF a = NoAnswer THEN e.out = "err" ELSE e.out = "ok" /\ e.val = a
TamperedOk(e) == \/ e.out = "err"
                 \/ e.out = "ok" /\ Correct(e) # NoAnswer /\ e.val = Correct(e)
\* FssCount counts the secrets for which a deviation is accepted: the verification keys are independent
\* and spread over the field. Of n queries hardly two have a relation between two keys in common.
SecretsOk(e) == e.got = e.n /\ e.distinct + 2 >= e.n /\ e.biased = 0
Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "keys" -> TRUE
           [] e.ev = "answer" -> AnswerOk(e)
           [] e.ev = "tampered" -> TamperedOk(e)
           [] e.ev = "secrets" -> SecretsOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ db = 1
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ db' = IF e.ev = "keys" THEN l ELSE db
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
