----------------------------- MODULE CodecTrace -----------------------------
(* Recorded encodings and decodings, explained by Codec with bytes: what is
   decoded is what was encoded; the message has the length which its header and
   its kind announce; encoding again gives the same message; neither the value
   nor an earlier message changes.

   Values are flattened to integers: e.in before, e.dec after, with their
   dimensions e.dims and e.ddims. e.head are the first bytes of the message. *)
EXTENDS TraceLib
VARIABLE l
vars == <<l>>
C == INSTANCE Codec WITH Base <- 256, W <- 4, Lim <- 4194304, Signal <- 128

HeadIs(e, b) == Len(e.head) >= Len(b) /\ SubSeq(e.head, 1, Len(b)) = b
D(e, i) == e.dims[i]
SizeOk(e) ==
  CASE e.kind \in {"matrix", "matrix128"} ->
         LET w == IF e.kind = "matrix" THEN 4 ELSE 16 IN
         e.len = C!MatLen(D(e, 1), D(e, 2), w) /\ HeadIs(e, C!Num(D(e, 1), 4) \o C!Num(D(e, 2), 4))
    [] e.kind = "batch" ->
         LET n == C!MatLen(D(e, 2), D(e, 3), 4) IN e.len = 4 + D(e, 1) * n /\ HeadIs(e, C!Num(n, 4))
    [] e.kind = "proof" -> e.len = C!ProofLen(D(e, 1), 32) /\ (D(e, 2) >= 0 => e.len = D(e, 2))
    [] e.kind = "elements" -> e.len = D(e, 1) * D(e, 2)
    [] e.kind = "words" -> e.len = 4 * D(e, 1)
    [] e.kind = "field" -> e.len = 4 * D(e, 1)
    [] e.kind = "vector" -> e.len = 3 * D(e, 1)
    [] e.kind = "bits" -> e.len = 8 * D(e, 1)
    [] e.kind = "pad" -> e.len > D(e, 1) /\ e.len % D(e, 2) = 0
    [] e.kind = "signal" -> e.len = D(e, 1) + 1
    [] e.kind \in {"query", "fssquery", "config"} -> TRUE
    [] OTHER -> FALSE
RoundTripOk(e) == /\ e.out = "ok"
                  /\ e.dec = e.in /\ e.ddims = e.dims
                  /\ e.kept       \* the value is not modified
                  /\ e.again      \* encoding is deterministic
                  /\ e.stable     \* messages and decoded values do not change later
                  /\ SizeOk(e)
\* a database announces the lengths of its blocks
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
LayoutOk(e) == /\ e.out = "ok"
               /\ Len(e.lengths) = e.rows * e.cols
               /\ SumTo(e.lengths, Len(e.lengths)) = e.entries
               /\ \A i \in DOMAIN e.lengths : e.lengths[i] <= e.bs
               /\ \A i \in DOMAIN e.lengths : e.lengths[i] = e.datalens[i] + e.extra
\* a configuration which does not name the servers 0..n-1 is an error
BadConfigOk(e) == e.out = "err"
Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "roundtrip" -> RoundTripOk(e)
           [] e.ev = "layout" -> LayoutOk(e)
           [] e.ev = "badconfig" -> BadConfigOk(e)
           [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= TraceLen /\ l' = l + 1
        /\ LET e == Trace[l] IN Explained(Ok(e), l) /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
