------------------------------ MODULE LWETrace ------------------------------
(* Recorded sessions with the lattice schemes, explained by LWEPir. The driver
   measures the deviation of an answer from the honest one: dev is the largest
   over the columns, far the largest distance of a column from what the server
   cannot know (0, t and -t); devq and farq are those of the queried column.
   They are cut at 2^30. *)
EXTENDS TraceLib
VARIABLES l, db, asked
vars == <<l, db, asked>>
None == -1
Db == Trace[db]
Size == Db.rows * Db.cols
Bit(x) == Db.bits[x+1]
Bound == 84 * Db.rows          \* rows * 12 * ceil(sigma)
MaxNoise == 46 * Db.rows       \* no sample exceeds 46 except with probability 2^-40

DbOk(e) == e.out = "ok" /\ Len(e.bits) = e.rows * e.cols /\ e.content
\* the digest is determined by the content: the same in another process, of a
\* matrix built by hand, and the sum of the digests of its entries
DigestOk(e) == e.out = "ok" /\ e.same
QueryOk(e) == IF e.index \in 0..(Size-1) THEN e.out = "ok" ELSE e.out = "err"
ServeOk(e) == e.out = "ok"
ResultOk(e) == asked # None /\ e.out = "ok" /\ e.val = Bit(asked)
\* LWEPir!Sound and NoFlip; smallt: t happens to be so small that the server
\* could have hit it (LWEPir!Guess)
TamperedOk(e) ==
  /\ asked # None
  /\ e.out \in {"ok", "err"}
  /\ e.dev >= 2 * Bound /\ e.far >= 2 * Bound => e.out = "err"
  /\ e.out = "ok" => e.val = Bit(asked) \/ e.farq < 2 * Bound
  /\ e.out = "ok" /\ e.devq < 2 * Bound => e.val = Bit(asked) \/ e.smallt
\* a server that has hit t in some of the repetitions: the others decide (LWEPir!AmplifiedSound)
GuessedOk(e) == /\ asked # None /\ e.out \in {"ok", "err"}
                /\ 2 * e.hits < e.reps /\ e.out = "ok" => e.val = Bit(asked)
\* LWEPir!Window: exactly the deviations lo..hi of the column are accepted
WindowOk(e) == /\ asked # None
               /\ e.out = "ok" /\ e.lo <= 0 /\ e.hi >= 0 /\ e.inside
               /\ e.hi - e.lo + 1 <= 2 * Bound
               /\ e.hi + e.lo <= 2 * MaxNoise /\ e.hi + e.lo >= -2 * MaxNoise
\* the scalars of many queries are spread over all of Z_q (LWEPir: t is any value
\* that is not noise): what a server adds to an answer is LWEPir!Guess for a
\* negligible part of them only. constant: bits (above the noise of the
\* measurement) that are always the same; gap: the widest interval without a
\* scalar, in thousandths; same: equal ones. All of it fails with probability
\* below 2^-60 for uniform scalars.
ScalarsOk(e) == /\ e.n >= 300
                /\ e.constant = 0 /\ e.gap <= 180
                /\ e.same <= e.n \div 20
MalformedOk(e) == e.out = "err"
Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "db" -> DbOk(e)
           [] e.ev = "digest" -> DigestOk(e)
           [] e.ev = "query" -> QueryOk(e)
           [] e.ev = "serve" -> ServeOk(e)
           [] e.ev = "result" -> ResultOk(e)
           [] e.ev = "tampered" -> TamperedOk(e)
           [] e.ev = "guessed" -> GuessedOk(e)
           [] e.ev = "window" -> WindowOk(e)
           [] e.ev = "scalars" -> ScalarsOk(e)
           [] e.ev = "malformed" -> MalformedOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ db = 1 /\ asked = None
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ db' = IF e.ev = "db" THEN l ELSE db
           /\ asked' = IF e.ev \in {"begin", "db"} THEN None
                       ELSE IF e.ev = "query" THEN (IF e.out = "ok" THEN e.index ELSE None)
                       ELSE asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
