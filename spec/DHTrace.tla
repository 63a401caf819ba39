------------------------------ MODULE DHTrace ------------------------------
(* Recorded sessions with the discrete-logarithm scheme, explained by DHPir:
   an honest answer gives the bit, any other one the bit or an error. *)
EXTENDS TraceLib
VARIABLES l, db, asked
vars == <<l, db, asked>>
None == -1
Db == Trace[db]
Size == Db.rows * Db.cols
Bit(i) == Db.bits[i+1]
DbOk(e) == e.out = "ok" /\ Len(e.bits) = e.rows * e.cols /\ \A i \in DOMAIN e.bits : e.bits[i] \in {0, 1}
\* a client is made exactly of a description whose digests match
ClientOk(e) == IF e.match THEN e.out = "ok" ELSE e.out \in {"panic", "err"}
QueryOk(e) == IF e.index \in 0..(Size-1) THEN e.out = "ok" ELSE e.out = "err"
ServeOk(e) == e.out = "ok"
ResultOk(e) == asked # None /\ e.out = "ok" /\ e.val = Bit(asked)
TamperedOk(e) == asked # None /\ (e.out = "err" \/ (e.out = "ok" /\ e.val = Bit(asked)))
\* malformed messages: only errors
MalformedOk(e) == e.out = "err"
UntouchedOk(e) == e.same
\* DHPir takes the H_j to be unrelated: different columns have different bases
\* (numbers of the encodings), a column always the same one
BasesOk(e) == /\ Len(e.cols) = Len(e.ids)
              /\ Cardinality({e.ids[x] : x \in DOMAIN e.ids}) = Cardinality({e.cols[x] : x \in DOMAIN e.cols})
              /\ Cardinality({<<e.cols[x], e.ids[x]>> : x \in DOMAIN e.ids}) = Cardinality({e.cols[x] : x \in DOMAIN e.cols})
Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "db" -> DbOk(e)
           [] e.ev = "client" -> ClientOk(e)
           [] e.ev = "query" -> QueryOk(e)
           [] e.ev = "serve" -> ServeOk(e)
           [] e.ev = "result" -> ResultOk(e)
           [] e.ev = "tampered" -> TamperedOk(e)
           [] e.ev = "malformed" -> MalformedOk(e)
           [] e.ev = "untouched" -> UntouchedOk(e)
           [] e.ev = "bases" -> BasesOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ db = 1 /\ asked = None
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ db' = IF e.ev = "db" THEN l ELSE db
           /\ asked' = IF e.ev \in {"begin", "db"} THEN None
                       ELSE IF e.ev = "query" THEN (IF e.out = "ok" THEN e.index ELSE None)
                       ELSE asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
