--------------------------- MODULE ChannelTrace ----------------------------
(* Requests of the real front ends over links that the driver controls,
   explained by Channel. A "path" says who is at the end of every link when the
   next "request" is made (Channel!end), and if the attacker alters what passes,
   or has done so since the program was started; "replace" is Channel!Replace in
   the middle of a request. "info" and "query" are messages that the servers
   have received, "reach" is one that the attacker has received, "wire" is what
   has passed on the link of a server.

   Of the server programs: what they "prove", whether they answer an "unsealed"
   client, whether they are "usable" after it. Positions count from 0. *)
EXTENDS TraceLib, Predicates
VARIABLES l, data, path, req, infos, replaced
vars == <<l, data, path, req, infos, replaced>>
None == 0
P == Trace[path]
R == Trace[req]
Keys == Trace[data].keys
Now == Trace[data].now
Ends == {"genuine", "unknown", "thief", "plain"}
Links == DOMAIN P.ends

PathOk(e) == req = None /\ \A s \in DOMAIN e.ends : e.ends[s] \in Ends
RequestOk(e) == /\ req = None /\ path # None
                /\ DOMAIN e.servers = Links /\ \A s \in Links : e.servers[s].info = "ok" /\ e.servers[s].ans = "honest"
InfoOk(e) == req # None /\ e.s + 1 \in Links /\ P.ends[e.s + 1] = "genuine"
\* Channel!Connected: there is no query unless all the servers are there
QueryOk(e) == /\ req # None /\ e.s + 1 \in Links \ replaced
              /\ \A s \in Links : P.ends[s] = "genuine"
              /\ infos = Links
ReplaceOk(e) == req # None /\ e.end \in Ends \ {"genuine"}
\* Channel!Secret: neither the attacker nor a reader of the link learns anything
ReachOk(e) == FALSE
WireOk(e) == e.end # "genuine" \/ {e.up, e.down} \subseteq {"tls", "nothing"}

Stored(email) == {i \in DOMAIN Keys : Keys[i].email = email}
Truth == CASE R.kind = "key" -> IF Stored(R.email) = {} THEN [kind |-> "missing"]
                                ELSE [kind |-> "key", fp |-> Keys[CHOOSE i \in Stored(R.email) : TRUE].fp]
           [] R.kind = "count" -> LET a == Answer(Keys, R.pred, Now) IN
                                  IF a = NoAnswer THEN [kind |-> "error"] ELSE [kind |-> "number", num |-> a]
           [] R.kind = "run" -> [kind |-> "done"]
ErrorShown(e) == e.out = "error" /\ e.kind = "nothing"
Is(e, t) == CASE t.kind = "missing" -> e.kind = "missing"
              [] t.kind = "key" -> e.out = "ok" /\ e.kind = "key" /\ e.fp = t.fp /\ e.email = R.email
              [] t.kind = "number" -> e.out = "ok" /\ e.kind = "number" /\ e.num = t.num
              [] t.kind = "done" -> e.out = "ok"
              [] t.kind = "error" -> ErrorShown(e)
\* Channel!FromServers, RightOrError, Works
OutcomeOk(e) ==
  /\ req # None
  /\ IF (\E s \in Links : P.ends[s] # "genuine") \/ replaced # {} THEN ErrorShown(e)
     ELSE IF P.altered THEN ErrorShown(e) \/ Is(e, Truth)
     ELSE Is(e, Truth)

\* the shipped certificates are ServerPublicKeys
ProveOk(e) == e.out = "ok" /\ e.pin >= 0
UnsealedOk(e) == ~e.answered
UsableOk(e) == e.out = "ok"

Ok(e) == CASE e.ev \in {"begin", "data"} -> TRUE
           [] e.ev = "path" -> PathOk(e)
           [] e.ev = "request" -> RequestOk(e)
           [] e.ev = "info" -> InfoOk(e)
           [] e.ev = "query" -> QueryOk(e)
           [] e.ev = "replace" -> ReplaceOk(e)
           [] e.ev = "reach" -> ReachOk(e)
           [] e.ev = "wire" -> WireOk(e)
           [] e.ev = "outcome" -> OutcomeOk(e)
           [] e.ev = "start" -> e.out = "ok"
           [] e.ev = "prove" -> ProveOk(e)
           [] e.ev = "unsealed" -> UnsealedOk(e)
           [] e.ev = "usable" -> UsableOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ data = 1 /\ path = None /\ req = None /\ infos = {} /\ replaced = {}
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ data' = IF e.ev = "data" THEN l ELSE data
           /\ path' = CASE e.ev = "path" -> l [] e.ev = "begin" -> None [] OTHER -> path
           /\ req' = CASE e.ev = "request" -> l
                       [] e.ev \in {"outcome", "begin"} -> None
                       [] OTHER -> req
           /\ infos' = CASE e.ev \in {"request", "begin"} -> {}
                         [] e.ev = "info" -> infos \cup {e.s + 1}
                         [] OTHER -> infos
           /\ replaced' = CASE e.ev \in {"path", "begin"} -> {}
                            [] e.ev = "replace" -> replaced \cup {e.s + 1}
                            [] OTHER -> replaced
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
