----------------------------- MODULE PointTrace -----------------------------
(* Recorded sessions of point retrieval, plain and authenticated, with honest
   (C01) and dishonest (C03) servers, explained by PointPIR and AuthPIR:
   a client's result is PointPIR!Content of the index of its last query (without
   the fill in the authenticated case), or, when the answers were tampered
   with, an error. *)
EXTENDS TraceLib
VARIABLES l,
          db,       \* the line of the current database
          asked     \* the index of the outstanding query, by client
vars == <<l, db, asked>>
P == INSTANCE PointPIR WITH MaxRows <- 0, MaxCols <- 0, MaxBlock <- 0, MaxServers <- 0, db <- 0, db0 <- 0,
       phase <- 0, k <- 0, index <- 0, shares <- 0, answers <- 0, result <- 0

Db == Trace[db]
Size == Db.rows * Db.cols
None == -1
AskedBy(c) == IF c \in DOMAIN asked THEN asked[c] ELSE None
Expected(i) == IF Db.auth THEN Db.records[i+1] ELSE P!Pad(Db.records[i+1], Db.bs)

DbOk(e) == e.out = "ok" /\ Len(e.records) = e.rows * e.cols
           /\ \A i \in DOMAIN e.records : Len(e.records[i]) <= e.bs
\* a query for a record of the database to two or more servers is possible, any other is refused
QueryOk(e) == IF e.index \in 0..(Size-1) /\ e.k >= 2 THEN e.out = "ok" /\ e.n = e.k
              ELSE e.out = "err"
ServeOk(e) == e.out = "ok"
\* honest servers
ResultOk(e) == /\ AskedBy(e.client) # None
               /\ e.out = "ok" /\ e.val = Expected(AskedBy(e.client))
\* at least one honest server, tampered answers
TamperedOk(e) == \/ e.out = "err"
                 \/ /\ e.out = "ok" /\ Db.auth
                    /\ e.val = Expected(AskedBy(e.client))
UntouchedOk(e) == e.same

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "db" -> DbOk(e)
           [] e.ev = "query" -> QueryOk(e)
           [] e.ev = "serve" -> ServeOk(e)
           [] e.ev = "result" -> ResultOk(e)
           [] e.ev = "tampered" -> TamperedOk(e)
           [] e.ev = "untouched" -> UntouchedOk(e)
           [] OTHER -> FALSE

Init == l = 1 /\ db = 1 /\ asked = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ db' = IF e.ev = "db" THEN l ELSE db
           /\ asked' = IF e.ev \in {"begin", "db"} THEN <<>>
                       ELSE IF e.ev = "query"
                       THEN (e.client :> (IF e.out = "ok" THEN e.index ELSE None)) @@ asked
                       ELSE asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
