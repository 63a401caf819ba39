------------------------------ MODULE Messages ------------------------------
(* Which messages are queries and answers, by scheme, from their bytes; db is
   the description of the database. What is not one has to be answered with an
   error, by servers and clients. *)
EXTENDS Codec
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Levels(n) == IF BitLen(n) > 7 THEN BitLen(n) - 7 ELSE 0
El(s) == IF s = "lwe128" THEN 16 ELSE 4

PointQueryLen(db) == IF db.k = 2 THEN 17 + 18 * Levels(db.cols) + 16 ELSE db.cols \div 8 + 1
\* one matrix with a single row
RowOf(b, e, n) == MatShape(b, e) = Some(<<1, n>>)
BatchOf(b, e, n) == LET d == DecBatch(b, e) IN
  IF d = None THEN 0 ELSE IF d[1][1].rows = 1 /\ d[1][1].cols = n THEN Len(d[1]) ELSE 0

(* predicate queries; q is the decoded structure *)
InputBytes(q) ==
  LET text == IF q.fromStart # 0 THEN q.fromStart ELSE IF q.fromEnd # 0 THEN q.fromEnd ELSE 16 IN
  IF q.and /\ q.avg THEN text
  ELSE IF q.and THEN text + 4
  ELSE IF q.target = 0 THEN text ELSE IF q.target = 1 THEN 15 ELSE 1
PredicateQuery(q, values) ==
  /\ q.decodable
  /\ q.info
  /\ q.fromStart >= 0 /\ q.fromEnd >= 0
  /\ ~q.sum /\ (q.avg => q.and)
  /\ (~q.and => q.target \in 0..2)
  /\ q.sInit = 16 /\ q.final = values
  /\ Len(q.cw) = 8 * InputBytes(q)
  /\ \A i \in DOMAIN q.cw : q.cw[i] = 18

(* a query m for the server: its length, its bytes, and what the driver decoded *)
IsQuery(db, m) ==
  CASE db.scheme = "point" -> m.len = PointQueryLen(db)
    [] db.scheme \in {"lwe", "lwe128"} -> RowOf(m.bytes, El(db.scheme), db.rows)
    [] db.scheme = "amplify" -> BatchOf(m.bytes, 4, db.rows) >= 1
    [] db.scheme = "dh" -> m.len = db.cols * db.es /\ m.decodable
    [] db.scheme = "predicate" -> PredicateQuery(m.query, db.values)
(* answers ms for the client *)
IsAnswer(db, avg, ms) ==
  CASE db.scheme = "point" -> Len(ms) = db.k /\ \A i \in DOMAIN ms : ms[i].len = db.rows * db.bs
    [] db.scheme \in {"lwe", "lwe128"} -> RowOf(ms[1].bytes, El(db.scheme), db.cols)
    [] db.scheme = "amplify" -> BatchOf(ms[1].bytes, 4, db.cols) = db.reps
    [] db.scheme = "dh" -> ms[1].len = db.rows * db.es /\ ms[1].decodable
    [] db.scheme = "predicate" -> Len(ms) = 2 /\ \A i \in DOMAIN ms : ms[i].len = 4 * db.values * (IF avg THEN 2 ELSE 1)
=============================================================================
