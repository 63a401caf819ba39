--------------------------- MODULE MessagesTrace ---------------------------
(* Recorded reactions of the real clients and servers to arbitrary messages,
   explained by Messages and Malformed: an error for everything that is not a
   query (an answer), never a panic; nothing outside of the message is read
   (e.same: the surrounding bytes make no difference) or written (e.touched);
   and undisturbed exchanges in between give the right value. *)
EXTENDS TraceLib
VARIABLES l, db, asked
vars == <<l, db, asked>>
M == INSTANCE Messages WITH Base <- 256, W <- 4, Lim <- 4194304, Signal <- 128
Db == Trace[db]
None == -1

Reaction(e) == e.out \in {"ok", "err"} /\ e.same /\ ~e.touched
ServeOk(e) == Reaction(e) /\ (~M!IsQuery(Db, e.m) => e.out = "err")
PresentOk(e) == Reaction(e) /\ (asked = None \/ ~M!IsAnswer(Db, e.avg, e.ms) => e.out = "err")
\* undisturbed: the record, or the number of keys of this class, or their mean age
Class(i) == {x \in DOMAIN Db.content : Db.content[x][1] = i}
RECURSIVE SumAge(_)
SumAge(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Db.content[x][2] + SumAge(S \ {x})
Expected(e) ==
  IF Db.scheme = "predicate"
  THEN LET c == Class(e.index) n == Cardinality(c) IN IF e.avg THEN <<SumAge(c) \div n>> ELSE <<n>>
  ELSE Db.content[e.index + 1]
HonestOk(e) == e.out = "ok" /\ e.val = Expected(e)
Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "setup" -> e.out = "ok"
           [] e.ev = "query" -> e.out = "ok"
           [] e.ev = "serve" -> ServeOk(e)
           [] e.ev = "present" -> PresentOk(e)
           [] e.ev = "honest" -> HonestOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ db = 1 /\ asked = None
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ db' = IF e.ev = "setup" THEN l ELSE db
           /\ asked' = IF e.ev \in {"begin", "setup"} THEN None
                       ELSE IF e.ev = "query" /\ e.out = "ok" THEN e.index ELSE asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
