--------------------------- MODULE KeyServerTrace ---------------------------
(* Recorded requests to running key servers. A request has the digest of the
   answer that its query has over the database ("want"; numbers, equal for
   equal bytes). "accepted" marks requests that a server has taken over before
   the stop signal. *)
EXTENDS TraceLib
VARIABLES l, open,     \* request -> line of its "send"
          accepted, stopped, up
vars == <<l, open, accepted, stopped, up>>

StartOk(e) == e.out = "ok"
InfoOk(e) == e.out = "ok" /\ e.got = e.want

Right(e, s) == e.out = "ok" /\ s.valid /\ e.ans = s.want
Refusal(e, s) == e.out = "err" /\ ~s.valid
Gone(e, s) == e.out = "cancelled" /\ s.giveup
\* a request may be turned away because the server stops
Turned(e, s, r) == e.out \in {"unavailable", "err"} /\ s.server \in stopped /\ r \notin accepted
RecvOk(e) == /\ e.r \in DOMAIN open
             /\ LET s == Trace[open[e.r]] IN
                Right(e, s) \/ Refusal(e, s) \/ Gone(e, s) \/ Turned(e, s, e.r)

\* a whole retrieval, with the answers of all the servers
RetrieveOk(e) == e.out = "ok" /\ e.got = e.want

\* the servers terminate cleanly, after a stop signal only, and the requests
\* they accepted have been answered before
ExitOk(e) == e.server \in stopped /\ e.rc = 0
\* peers that hold a connection do not hold the server, except that it waits for
\* handshakes as long as they may take (two minutes)
HeldOk(e) == e.server \in stopped /\ (e.out = "exited" \/ (e.how # "request" /\ ~e.long))
\* nothing is left without an answer
EndOk(e) == open = <<>> /\ up = {}

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "start" -> StartOk(e)
           [] e.ev = "info" -> InfoOk(e)
           [] e.ev = "send" -> e.r \notin DOMAIN open
           [] e.ev = "accepted" -> TRUE
           [] e.ev = "recv" -> RecvOk(e)
           [] e.ev = "retrieve" -> RetrieveOk(e)
           [] e.ev = "stop" -> TRUE
           [] e.ev = "exit" -> ExitOk(e)
           [] e.ev = "held" -> HeldOk(e)
           [] e.ev = "end" -> EndOk(e)
           [] OTHER -> FALSE

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Init == l = 1 /\ open = <<>> /\ accepted = {} /\ stopped = {} /\ up = {}
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ open' = CASE e.ev = "begin" -> <<>>
                        [] e.ev = "send" -> (e.r :> l) @@ open
                        [] e.ev = "recv" -> Without(open, e.r)
                        [] OTHER -> open
           /\ accepted' = CASE e.ev = "begin" -> {}
                            [] e.ev = "accepted" -> accepted \cup Range(e.rs)
                            [] OTHER -> accepted
           /\ stopped' = CASE e.ev = "begin" -> {}
                           [] e.ev = "stop" -> stopped \cup {e.server}
                           [] OTHER -> stopped
           /\ up' = CASE e.ev = "begin" -> {}
                      [] e.ev = "start" -> IF e.out = "ok" THEN up \cup {e.server} ELSE up
                      [] e.ev = "exit" -> up \ {e.server}
                      [] OTHER -> up
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
