------------------------- MODULE QueryPrivacyTrace -------------------------
(* What was measured on the queries of the real clients. Exact facts (the views
   of a coalition are spread over the same affine space for every index; what
   is public does not depend on the input) are compared here; for the keys made
   with the randomness of the operating system the measurements are statistics,
   judged by the bounds below: a deviation of 7 standard errors has probability
   3e-12. *)
EXTENDS TraceLib
VARIABLES l, seen   \* the first distribution of each coalition
vars == <<l, seen>>
Q0 == INSTANCE QueryPrivacy WITH MaxCols <- 1, MaxServers <- 1, Q <- 2, Levels <- {1}, q <- [kind |-> "none"]

MaxZ == 700           \* hundredths of a standard error
Key(e) == <<e.group, e.view>>
\* QueryPrivacy!Hidden: the same distribution for every index
DistOk(e) == e.out = "ok" /\ (Key(e) \in DOMAIN seen => seen[Key(e)] = e.dist)
StatOk(e) == e.out = "ok" /\ e.n >= 1000 /\ e.tests > 0 /\ e.zmax <= MaxZ /\ e.shapes = 1
\* fresh randomness; slack for values with few bits
FreshOk(e) == e.out = "ok" /\ e.n > 1 /\ e.distinct + (IF e.bits <= 32 THEN 2 ELSE 0) >= e.n
SpreadOk(e) == e.out = "ok" /\ e.n >= 64 /\ e.mindistinct * 4 >= e.n
SameOk(e) == e.out = "ok" /\ e.same
\* the noise of the lattice schemes: in hundredths, standard deviation of the difference of two samples,
\* and the largest correlation between the noise of two elements (0.6 is 8 standard errors of 200 samples)
NoiseOk(e) == e.out = "ok" /\ (e.determined => e.n >= 200 /\ e.std >= 600 /\ e.max <= 40000 /\ e.worstcol >= 400 /\ e.corr <= 60)
EntropyOk(e) == e.out = "ok" /\ (e.determined => e.tape >= e.need /\ e.influence * 100 >= e.tried * 95)
RefuseOk(e) == IF Q0!Allowed(e.scheme, e.k) THEN e.out = "ok" /\ e.sent = e.k ELSE e.out = "err" /\ e.sent = 0
\* the randomness is the whole stream, in how many pieces ever it comes
StreamOk(e) == e.out = "ok" /\ (e.determined => e.same)
\* QueryPrivacy!Fed: nothing is sent that was made with less randomness than its masks hold
StarvedOk(e) == e.drawn < e.need \/ Q0!Fed(e.need, e.given) \/ e.out = "refused"
BasesOk(e) == e.out = "ok" /\ e.distinct = e.n /\ ~e.related

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "dist" -> DistOk(e)
           [] e.ev = "stat" -> StatOk(e)
           [] e.ev = "fresh" -> FreshOk(e)
           [] e.ev = "spread" -> SpreadOk(e)
           [] e.ev = "same" -> SameOk(e)
           [] e.ev = "noise" -> NoiseOk(e)
           [] e.ev = "entropy" -> EntropyOk(e)
           [] e.ev = "refuse" -> RefuseOk(e)
           [] e.ev = "starved" -> StarvedOk(e)
           [] e.ev = "stream" -> StreamOk(e)
           [] e.ev = "bases" -> BasesOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ seen = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ seen' = IF e.ev = "begin" THEN <<>>
                      ELSE IF e.ev = "dist" /\ Key(e) \notin DOMAIN seen THEN seen @@ (Key(e) :> e.dist)
                      ELSE seen
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
